#!/usr/bin/env python3
# probe.py SLOT SPEC... : for each spec (id, prop, edits): apply in slot's copy, run tests, run the property's check
import sys,subprocess,os,time,json
slot=sys.argv[1]; base=f'/tmp/prb/{slot}'
def sync():
    for a in ('repo','verif'):
        os.makedirs(f'{base}/{a}',exist_ok=True)
        subprocess.run(f"cd /{a} && find . -type f -not -path './target/*' -not -path '*/target/*' -not -path './evidence/*' -not -path './replays/*' | while read f; do cmp -s \"$f\" \"{base}/{a}/$f\" || {{ mkdir -p \"$(dirname \"{base}/{a}/$f\")\"; cp \"$f\" \"{base}/{a}/$f\"; }}; done",shell=True)
    subprocess.run(f"cd {base}/repo && git checkout -q -- . 2>/dev/null",shell=True)
if not os.path.exists(base+'/verif'):
    os.makedirs(base); subprocess.run(f'cp -a /repo {base}/repo; cp -a /verif {base}/verif',shell=True)
sync()
def run(cmd,to):
    try:
        p=subprocess.run(['unshare','-m','bash','-c',f'mount --bind {base}/repo /repo && mount --bind {base}/verif /verif && '+cmd],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=to)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,''
for spec in sys.argv[2:]:
    ns={}; exec(open(spec).read(),ns)
    bad=False; orig={}
    for f,a,b in ns['edits']:
        p=f'{base}/repo/{f}'; s=open(p).read(); orig.setdefault(p,s)
        if s.count(a)!=1: print(ns['id'],'EDIT matches',s.count(a),f,repr(a[:60])); bad=True; break
        open(p,'w').write(s.replace(a,b))
    if not bad:
        rc,o=run("cd /repo && timeout 300 cargo test --all-features --offline --no-fail-fast 2>&1",320)
        if rc: print(ns['id'],'TESTS FAIL', 'compile' if 'could not compile' in o else 'tests'); print('\n'.join([l for l in o.split('\n') if l.startswith('error') or 'FAILED' in l or 'panicked' in l][:6]))
        else:
            for c in ns['prop'].split()+ns.get('also','').split():
                t=time.time(); rc,o=run(f"cd /verif && ./check {c} quick 2>&1",900)
                v=[l for l in o.split('\n') if 'VIOLATION' in l or (': ' in l and rc==1)]
                print(ns['id'],c,'CAUGHT' if rc==1 else 'MISSED' if rc==0 else f'rc={rc} '+o[-300:],f'{time.time()-t:.0f}s',' | '.join(v)[:260],flush=True)
                if rc==1: break
    for p,s in orig.items(): open(p,'w').write(s)
