#!/bin/bash
# run.sh W : W workers
W=$1
for i in ${2:-$(seq 0 $((W-1)))}; do
 mkdir -p /tmp/mut/w$i; [ -d /tmp/mut/w$i/repo ] || cp -a /repo /tmp/mut/w$i/repo; rm -rf /tmp/mut/w$i/verif.new
 if [ ! -d /tmp/mut/w$i/verif ]; then cp -a /verif /tmp/mut/w$i/verif; fi
 unshare -m bash -c "mount --bind /tmp/mut/w$i/repo /repo && mount --bind /tmp/mut/w$i/verif /verif && cd /verif && exec python3 /tmp/mut/worker.py $i $W" > /tmp/mut/log$i 2>&1 &
done
