#!/bin/bash
# soak.sh "C01 C02" BUDGET SEED : run checks one after another with a longer budget
cd "$(dirname "$0")/.."
for p in $1; do VERIF_BUDGET=$2 VERIF_SEED=$3 python3 check.py $p quick > /tmp/soak.$p.$3 2>&1; echo "$p rc $?"; grep -v KNOWN /tmp/soak.$p.$3 | tail -3 | cut -c1-700; done
