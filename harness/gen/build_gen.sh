#!/bin/bash
# build_gen.sh OUTDIR REPO VERIF MAIN: compiles the repository's binary-format
# generator (formats, overlays, encodings, groups) natively together with MAIN
# and runs it; MAIN describes a battery of formats/instruction groups through
# the generator's API and writes what the generator emits into OUTDIR.
set -u
out=$1; repo=$2; verif=$3; main=$4
o=$out/obj; mkdir -p $o
fl="-std=c++17 -w -O0 -I$verif/shim_dec -I$verif/shim -I$verif/runtime -I$verif/harness -I$repo"
pids=()
for f in format overlay instruction_encoding encoding_group instruction_group bin_encoding_info bin_decoder decoder_error_listener format_name extract; do
  clang++-18 $fl -c $repo/mpact/sim/decoder/$f.cc -o $o/$f.o & pids+=($!)
done
clang++-18 $fl -c $verif/harness/gen/$main.cc -o $o/main.o & pids+=($!)
for p in ${pids[@]}; do wait $p || exit 2; done
clang++-18 $o/*.o -o $o/gen || exit 2
timeout 60 $o/gen $out $repo $verif; rc=$?
[ $rc = 0 ] || { echo "GENERATOR-FAILED exit $rc"; exit 3; }
rm -f $o/*.o
