#!/bin/bash
# bin.sh OUTDIR REPO VERIF: compiles the repository's binary format generator natively (with a recursive-descent
# parser made from its grammar in place of ANTLR's), runs it on a battery of descriptions and leaves what it emits in
# OUTDIR/bin.
set -u
out=$1; repo=$2; verif=$3; o=$out/obj; mkdir -p $o $out/bin
D=$repo/mpact/sim/decoder
python3 $verif/tools/antlr_mini.py $D/BinFormat.g4 mpact::sim::decoder::bin_format::generated $o/gen/mpact/sim/decoder || exit 2
fl="-std=c++17 -w -O0 -I$o/gen -I$verif/shim_antlr -I$verif/shim_dec -I$verif/shim -I$verif/runtime -I$verif/harness -I$repo"
pids=()
for f in bin_format_visitor format overlay instruction_encoding encoding_group instruction_group bin_encoding_info bin_decoder decoder_error_listener format_name extract; do
  clang++-18 $fl -c $D/$f.cc -o $o/$f.o & pids+=($!)
done
clang++-18 $fl -c $verif/harness/gen/gen_bin.cc -o $o/main.o & pids+=($!)
for p in ${pids[@]}; do wait $p || exit 2; done
clang++-18 $o/*.o -o $o/gen_bin || exit 2
rm -f $o/*.o
python3 $verif/harness/gen/bin_battery.py $out/bin || exit 2
python3 $verif/harness/gen/bin_bad.py $o/gen_bin $out/bad $out/bin/bin_bad.h || exit 2
timeout 120 $o/gen_bin $out/bin; rc=$?
[ $rc = 0 ] || { echo "GENERATOR-FAILED exit $rc"; exit 3; }
clang++-18 -std=c++17 -w -fsyntax-only -ferror-limit=${VF_ERRS:-5} -I$verif/shim_antlr -I$verif/shim_dec -I$verif/shim -I$verif/runtime -I$verif/harness -I$repo -I$out/bin -x c++ $out/bin/bin_expect.h || { echo "GENERATED-CODE-DOES-NOT-COMPILE"; exit 3; }
