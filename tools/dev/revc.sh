#!/bin/bash
# revc.sh COMMIT CHECK SEEDS... : revert fix in copy, run the check w/o regress
c=$1; k=$2; shift 2
R=/tmp/rev/$c/repo; V=/tmp/rev/$c/verif
rm -rf /tmp/rev/$c; mkdir -p /tmp/rev/$c; cp -a /repo $R; mkdir $V; cp -a /verif/{checks,lib,harness,shim,tools,MANIFEST.json,properties.jsonl,known_findings.txt} $V/
git -C $R revert --no-commit $c || exit 1
cd $V; for s in "$@"; do STL2PS_REPO=$R VERIF_SEED=$s timeout 900 python3 checks/run.py $k --tier quick > /tmp/rev/$c/log-$s 2>&1; echo "$c $k seed $s rc=$? $(grep -m1 -A0 'VIOLATION' /tmp/rev/$c/log-$s) $(tail -2 /tmp/rev/$c/log-$s|head -1|cut -c1-200)"; done
