#!/bin/bash
# sw driver "seeds" scale tier [variant] [sub]
cd /verif
for s in $2; do GYOTO_VERIF_SCRATCH=/tmp/w/scr; export GYOTO_VERIF_SCRATCH; mkdir -p $GYOTO_VERIF_SCRATCH; t=$(date +%s); ./.build/${5:-plain}/$1 --seed $s --scale ${3:-1} --tier ${4:-quick} ${6:+--sub $6} --out /tmp/w/sw-$1.json >/tmp/w/sw-$1.out 2>/tmp/w/sw-$1.err; echo "seed $s rc $? $(( $(date +%s)-t ))s"; python3 /tmp/w/show.py /tmp/w/sw-$1.json | cut -c1-700; done
