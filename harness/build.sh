#!/bin/bash
# build.sh <out dir> <target>: builds a harness against the sources in $REPO (default /repo)
set -e
REPO=${REPO:-/repo}; OUT=$1; T=$2; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CXX=${CXX:-clang++}
CF="-std=gnu++17 -g -O1 -fno-omit-frame-pointer -U_FORTIFY_SOURCE -w -fsanitize=address -shared-libasan -pthread -I$REPO"
LIBDIR=$(dirname "$($CXX -print-file-name=libclang_rt.asan-x86_64.so)")
LF="-fsanitize=address -shared-libasan -Wl,-rpath,$LIBDIR -pthread -ldl"
case $T in
codec) SRC="Value Datum Request $(cd $REPO && ls values/*.cpp | sed 's/\.cpp$//')"; HS="codec"; COV="";;
sim) SRC="Value Datum Request Connection Client Server Utils $(cd $REPO && ls values/*.cpp | sed 's/\.cpp$//')"; HS="sim driver"; COV="-fsanitize-coverage=bb,trace-loads,trace-stores"
   LF="$LF -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -rdynamic";;
esac
# new source files added by a change are picked up too
for f in $(cd $REPO && ls *.cpp); do b=${f%.cpp}; case " $SRC Value Datum Request Connection Client Server Utils " in *" $b "*) ;; *) SRC="$SRC $b";; esac; done
P=()
for s in $SRC; do o=$OUT/${T}_$(echo $s | tr / _).o; ( $CXX $CF $COV -c "$REPO/$s.cpp" -o $o ) & P+=($!); OBJ="$OBJ $o"; done
for s in $HS; do o=$OUT/${T}_h_$s.o; ( $CXX $CF -I$H -c "$H/$s.cpp" -o $o ) & P+=($!); OBJ="$OBJ $o"; done
for p in "${P[@]}"; do wait $p; done
$CXX $OBJ $LF -o $OUT/$T
