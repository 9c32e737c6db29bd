#!/bin/bash
# qc.sh RUNS PROP... : quick development run
n=$1; shift
for p in "$@"; do LISOSIM_RUNS=$n LISOSIM_SHRINK=${SH:-8} timeout 300 /verif/target/std/debug/lisosim check $p 2>&1 | cut -c1-${W:-400}; done
