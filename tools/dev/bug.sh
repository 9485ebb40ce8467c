#!/bin/bash
# bug.sh ID [CHECK...]: run checks against a planted bug in a copy
id=$1; shift
S=/verif/seeded/$id
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $P
R=/tmp/bugr/$id/repo; V=/tmp/bugr/$id/verif
rm -rf /tmp/bugr/$id; mkdir -p /tmp/bugr/$id
cp -a /repo $R; mkdir $V; cp -a /verif/{checks,lib,harness,shim,tools,MANIFEST.json,properties.jsonl} $V/
[ -z "$REG" ] || cp -a /verif/regress $V/
[ -f /verif/known_findings.txt ] && cp /verif/known_findings.txt $V/
git -C $R apply $S/patch.diff || { echo "$id NO APPLY"; exit; }
cd $V
for k in "$@"; do t=$(date +%s); STL2PS_REPO=$R VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${TIER:-quick} timeout 900 python3 checks/run.py $k --tier ${TIER:-quick} > /tmp/bugr/$id/$k.log 2>&1; echo "$id $k rc=$? $(( $(date +%s)-t ))s $(grep -m1 VIOLATION /tmp/bugr/$id/$k.log | sed 's/.*replay=//')"; done
rm -rf $V/build $R
