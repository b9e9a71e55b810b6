#!/bin/bash
# cns.sh ID [checks...]: like catch.sh, in a mount namespace with its own copies of /repo and /verif
d=/verif/seeded/$1; id=$1; shift
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
exec 9>/tmp/cns/lock; flock 9
sync1() { (cd $1 && find . -type f -not -path './target/*' -not -path '*/target/*' -not -path './.git/*' ) | while read f; do cmp -s "$1/$f" "$2/$f" || { mkdir -p "$(dirname "$2/$f")"; cp "$1/$f" "$2/$f"; }; done; }
sync1 /repo /tmp/cns/repo; sync1 /verif /tmp/cns/verif
(cd /tmp/cns/repo && patch -s -p1 < $d/patch.diff) || exit 9
for c in ${@:-$prop}; do
 s=$(date +%s)
 out=$(unshare -m bash -c "mount --bind /tmp/cns/repo /repo && mount --bind /tmp/cns/verif /verif && cd /verif && ./check $c quick" 2>&1); rc=$?
 echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -A3 VIOLATION | cut -c1-300| tr '\n' ' ')"
 [ $rc -gt 1 ] && echo "$out" | tail -5
done
(cd /tmp/cns/repo && git checkout -q -- . )
