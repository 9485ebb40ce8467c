#!/bin/bash
# rev.sh COMMIT CHECK...: revert a fix in a copy, find a replay with the checks
c=$1; shift
R=/tmp/rev/$c/repo; V=/tmp/rev/$c/verif
rm -rf /tmp/rev/$c; mkdir -p /tmp/rev/$c
cp -a /repo $R; cp -a /verif $V 2>/dev/null; rm -rf $V/.git $V/regress $V/replays $V/build $V/seeded
cd $R; if [ -f /tmp/unfix/$c.py ]; then python3 /tmp/unfix/$c.py; else git -c user.email=a@b -c user.name=a revert -n $c >/tmp/rev/$c/git.log 2>&1 || { echo "$c CONFLICT"; exit; }; fi
cd $V
for k in "$@"; do STL2PS_REPO=$R python3 checks/run.py $k > /tmp/rev/$c/$k.log 2>&1; echo "$c $k rc=$? $(grep -m1 VIOLATION /tmp/rev/$c/$k.log | sed 's/.*replay=//')"; done
rm -rf $V/build $R
