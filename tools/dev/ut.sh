#!/bin/bash
# run upstream tests
set -e
cd /verif/harness; python3 build.py cli worker >/tmp/bp 2>&1 || { cat /tmp/bp; exit 1; }
R=$(dirname $(awk '/^cli/{print $2}' /tmp/bp))
mkdir -p /tmp/ut; cd /repo
for t in ast_test center_test geo_test ps_test stl_test stl-to-ps_lib_test test_main parser_support_test; do
 ( [ /tmp/ut/$t.o -nt /repo/stl-to-ps/$t.cc ] && [ /tmp/ut/$t.o -nt /repo/stl-to-ps/ast.h ] || clang++ -std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I/verif/shim -I/repo -I$R/gen -isystem /usr/include/eigen3 -c stl-to-ps/$t.cc -o /tmp/ut/$t.o ) &
done; wait
OBJ=$(ls $R/fast/*.o | grep -v -e main.cc.o -e worker.cc.o)
clang++ /tmp/ut/*.o $OBJ -o /tmp/ut/all -l:libre2.so.10 $(pkg-config --libs absl_flags_parse absl_str_format absl_strings absl_time absl_flags) -lgmock -lgtest
/tmp/ut/all 2>&1 | tail -3
for f in testcases/*.case testcases/*.example; do case $f in *.case) want=1;; *) want=0;; esac; (cd /repo; $R/cli --script=$f --output=/tmp/ut/o.ps --load_path=testcases >/dev/null 2>&1; rc=$?; [ $rc = $want ] || echo "BAD $f $rc"); done
