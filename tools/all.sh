#!/bin/bash
# developer helper: all.sh TIER PROP...: run checks one after another, built once
cd /verif; export VERIF_NOBUILD=1; T=$1; shift
for p in "$@"; do timeout 1000 python3 driver/check.py $p $T 2>&1 | cut -c1-${W:-400} | head -${N:-12}; done
