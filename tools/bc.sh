#!/bin/bash
# bc.sh OUTDIR : compile the library of /repo and the runtime to bitcode
set -e
OUT=$1; REPO=${REPO:-/repo}; V=$(cd "$(dirname "$0")/.."; pwd); mkdir -p $OUT
CF="-w -std=c++17 -O1 -fno-pic -ffp-contract=off -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -U_FORTIFY_SOURCE -DHAVE_SSE2 -msse2 -I$REPO/include -I$V/rt -emit-llvm $XF"
clang++ $CF -fno-builtin -fno-access-control -c $V/rt/symrt.cpp -o $OUT/symrt.bc &
for f in $REPO/lib/*.cpp $REPO/unicode/*.cpp; do b=$(basename $f .cpp); case $b in matcher_*) continue;; esac; clang++ $CF -c $f -o $OUT/lib_$b.bc & done
wait
llvm-link $OUT/lib_*.bc $OUT/symrt.bc -o $OUT/base.bc
