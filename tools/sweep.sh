#!/bin/bash
# developer helper: sweep.sh SEED N [ids...]: run checks over another seed (evidence and replays are rewritten)
cd /verif; . ./env.sh; export EGOBOX_LOG=off RUST_BACKTRACE=0
seed=$1; n=$2; shift 2
for id in ${@:-$(dst/target/release/dst list)}; do
 VERIF_SEED=$seed DST_N=$n dst/target/release/dst check $id quick 2>&1 | grep -vE "^thread|^note|panicked" | tail -4 | sed "s/^/[$seed] /"
done
