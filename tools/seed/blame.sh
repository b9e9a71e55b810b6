#!/bin/bash
# which planted changes only touch lines added by our own commits in /repo?
for d in /verif/seeded/*/; do
  n=$(basename $d)
  git -C /repo apply --check $d/patch.diff 2>/dev/null || { echo "$n: does not apply"; continue; }
  python3 - $d/patch.diff $n <<'P'
import sys,re,subprocess
f=None; own=0; orig=0; add=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    elif l.startswith('+++'): pass
    elif l.startswith('@@'):
        o=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-'):
        if l[1:].strip():
            b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{o},{o}',f],capture_output=True,text=True).stdout
            if b.startswith('^') or '094d591' in b[:9]: orig+=1
            else: own+=1
        o+=1
    elif l.startswith('+'): add+=1
    elif l.startswith(' '): o+=1
print(sys.argv[2],'orig',orig,'own',own,'added',add, '<<<<' if own and not orig else '')
P
done
