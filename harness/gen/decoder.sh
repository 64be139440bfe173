#!/bin/bash
set -u
bash $(dirname "$0")/build_gen.sh $1 $2 $3 gen_decoder; rc=$?
[ $rc = 0 ] || exit $rc
clang++-18 -std=c++17 -w -fsyntax-only -I$3/shim_dec -I$3/shim -I$3/runtime -I$3/harness -I$1 -x c++ $1/bin_decoders.h || { echo "GENERATED-CODE-DOES-NOT-COMPILE"; exit 3; }
