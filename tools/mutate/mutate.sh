#!/bin/bash
# Development aid: runs mutate.py with W workers, each over its own copy of /repo's sources.
# mutate.sh WORKERS OUT [PATTERN]; needs a built simulator under /tmp/simtarget.
w=$1 out=$2 pat=$3
rm -rf /tmp/mutsim /tmp/mut
mkdir -p /tmp/mut "$out"; cp -a /verif/sim /tmp/mutsim
for i in $(seq 0 $((w - 1))); do
    mkdir -p /tmp/mut/$i; git clone -q /repo /tmp/mut/$i/repo; cp -a /tmp/simtarget /tmp/mut/$i/target
    (nice -n 5 unshare -m bash -c 'mount --bind /tmp/mut/$1/repo /repo && cd /repo && exec python3 /verif/tools/mutate/mutate.py run "$1" "$2" "$3/$1.jsonl" "$4"' m $i $w "$out" "$pat" > /tmp/mut/$i/log 2>&1; rm -rf /tmp/mut/$i/target) &
done
wait
