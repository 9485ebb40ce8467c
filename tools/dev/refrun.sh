#!/bin/bash
# refrun.sh REPO CHECK...: checks on a refactored tree from a copy of /verif
R=$1; shift; n=$(basename $R); V=/tmp/refac/v-$n; rm -rf $V; mkdir -p $V
cp -a /verif/{checks,lib,harness,shim,tools,MANIFEST.json,properties.jsonl,regress,known_findings.txt} $V/
cd $V; [ $# -gt 0 ] || set -- $(seq -f 'C%02g' 1 27)
for k in "$@"; do STL2PS_REPO=$R VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 checks/run.py $k --tier quick > $V/$k.log 2>&1; rc=$?; echo "$n $k rc=$rc $(tail -1 $V/$k.log)"; done
