#!/bin/bash
# upstream tests for the tree in $1
R=$1; D=$(mktemp -d /tmp/utp-XXXX); K=/verif/tools/demo_kit
mkdir -p $D/gen/stl-to-ps; cd $R; S=$R/stl-to-ps
bison --defines=$D/gen/stl-to-ps/parser.tab.h -o $D/gen/stl-to-ps/parser.tab.cc $S/parser.y 2>/dev/null
flex --header-file=$D/gen/stl-to-ps/lexer.yy.h -o $D/gen/stl-to-ps/lexer.yy.cc $S/lexer.l
F="-std=c++17 -O0 -w -D_GLIBCXX_ASSERTIONS -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I/verif/shim -I$R -I$D/gen -isystem /usr/include/eigen3"
(ls $S/*.cc | grep -v -e stl-to-ps-main.cc; ls $D/gen/stl-to-ps/*.cc) | xargs -P 8 -I{} sh -c "clang++ $F -c {} -o $D/\$(basename {}).o"
clang++ $D/*.o -o $D/all -l:libre2.so.10 $(pkg-config --libs absl_flags_parse absl_str_format absl_strings absl_time absl_flags absl_synchronization) -lgmock -lgtest
$D/all 2>&1 | tail -2
rm -rf $D
