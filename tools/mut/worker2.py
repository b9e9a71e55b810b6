import json,sys,subprocess,os,time
w=int(sys.argv[1]); W=int(sys.argv[2]); order=sys.argv[3] if len(sys.argv)>3 else None
base=f'/tmp/mut/w{w}'
muts=json.load(open('/tmp/mut/muts.json'))
done=set()
for f in os.listdir('/tmp/mut'):
    if f.startswith('rez') and f.endswith('.jsonl'):
        for l in open('/tmp/mut/'+f):
            r=json.loads(l); done.add(r['id'])
MAP={
'attached_mount.rs':'C10 C15 C13 C08','cockpit.rs':'C14 C11 C15 C16 C23','driver.rs':'C15 C06 C27 C03 C04 C05 C10 C13 C01 C09 C23',
'lib.rs':'C28 C07 C08 C14 C26','observation.rs':'C28 C26 C17 C22 C13','processor.rs':'C08 C13 C14 C15 C11 C28 C16 C23 C07',
'snapshot.rs':'C25 C24 C15 C26','util.rs':'C15 C25','instruments/counter.rs':'C17 C15 C11 C23','instruments/histogram.rs':'C20 C15 C16 C23',
'instruments/instrument_adapter.rs':'C11 C12','instruments/label_filter.rs':'C12 C11','instruments/meter.rs':'C15 C19 C23','instruments/mod.rs':'C28 C11 C17 C22 C15',
'instruments/panel.rs':'C11 C14 C15 C16 C23','instruments/polled.rs':'C22 C15'}
def checks(f):
    if f in MAP: return MAP[f].split()
    if 'fundamentals' in f or 'value_meter' in f: return 'C18 C19 C15 C23'.split()
    if 'gauge/' in f: return 'C17 C18 C15 C23'.split()
    if 'switches' in f: return 'C21 C15 C23'.split()
    return 'C22 C15 C23'.split()
CONC='C01 C02 C03 C04 C05 C06 C07 C09 C10 C27'.split()
out=open(f'/tmp/mut/rez{w}.jsonl','a')
env=dict(os.environ,MC_WORKERS='2',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only')
def sh(cmd,cwd,to):
    try:
        p=subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=to,env=env,text=True,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(f"pkill -f 'target/release/mc check.*w{w}' ",shell=True)
        return 124,''
import random
random.Random(7).shuffle(muts)
SKIP={'driver.rs','attached_mount.rs'}
for m in muts:
    if m['file'] in SKIP: continue
    if m['id']%W!=w or m['id'] in done: continue
    if os.path.exists('/tmp/mut/stop'): break
    f='/repo/src/'+m['file']; orig=open(f).read(); ls=orig.split('\n'); old=ls[m['line']]; ls[m['line']]=m['new']
    open(f,'w').write('\n'.join(ls))
    r=dict(id=m['id'],file=m['file'],line=m['line']+1,old=old.strip(),new=m['new'].strip()); t=time.time()
    rc,o=sh('timeout -k 2 120 cargo test --all-features --offline --no-fail-fast -- --test-threads 4','/repo',150)
    if rc==0:
        rc,o=sh('./check build','/verif',300)
        if rc: r['st']='mc does not build'; r['out']=o[-300:]
        else:
            r['st']='SURVIVED'; r['odd']=[]
            for c in checks(m['file']):
                rc,o=sh(f'MC_TIME={0.06 if c in CONC else 0.2} timeout -k 2 400 ./mc/target/release/mc check {c} quick','/verif',420)
                if rc==1: r['st']='caught '+c; break
                if rc!=0: r['odd'].append((c,rc,o[-200:]))
    else:
        r['st']='compile' if 'could not compile' in o else ('tests' if rc!=124 else 'tests-timeout')
    open(f,'w').write(orig)
    r['s']=round(time.time()-t,1)
    out.write(json.dumps(r)+'\n'); out.flush()
