#!/bin/bash
# build.sh DIR: build the command line tool of the repository in $PWD as DIR/stl-to-ps
set -e
K=$(cd "$(dirname "$0")" && pwd); D=$1; S=$PWD/stl-to-ps
mkdir -p "$D/gen/stl-to-ps"
bison --defines="$D/gen/stl-to-ps/parser.tab.h" -o "$D/gen/stl-to-ps/parser.tab.cc" "$S/parser.y"
flex --header-file="$D/gen/stl-to-ps/lexer.yy.h" -o "$D/gen/stl-to-ps/lexer.yy.cc" "$S/lexer.l"
F="${DEMO_FLAGS} -std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I$K/shim -I$PWD -I$D/gen -isystem /usr/include/eigen3"
ls "$S"/*.cc | grep -v -e _test.cc -e test_main.cc > "$D/src"
ls "$D"/gen/stl-to-ps/*.cc >> "$D/src"
xargs -P 8 -I{} sh -c 'clang++ '"$F"' -c {} -o '"$D"'/$(basename {}).o' < "$D/src"
clang++ ${DEMO_FLAGS} "$D"/*.o -o "$D/stl-to-ps" -l:libre2.so.10 $(pkg-config --libs absl_flags_parse absl_str_format absl_strings absl_time absl_flags absl_synchronization)
