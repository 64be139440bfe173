#!/bin/bash
# isa.sh OUTDIR REPO VERIF: compiles the repository's instruction set generator natively (with a
# recursive-descent parser made from its grammar in place of ANTLR's), runs it on a battery of
# descriptions and leaves the emitted decoders in OUTDIR/isa.
set -u
out=$1; repo=$2; verif=$3; o=$out/obj; mkdir -p $o $out/isa
D=$repo/mpact/sim/decoder
python3 $verif/tools/antlr_mini.py $D/InstructionSet.g4 sim::machine_description::instruction_set::generated $o/gen/mpact/sim/decoder || exit 2
fl="-std=c++17 -w -O0 -I$o/gen -I$verif/shim_antlr -I$verif/shim_dec -I$verif/shim -I$verif/runtime -I$repo"
pids=()
for f in instruction_set_visitor slot instruction_set bundle instruction opcode resource template_expression format_name decoder_error_listener; do
  clang++-18 $fl -c $D/$f.cc -o $o/$f.o & pids+=($!)
done
clang++-18 $fl -c $verif/harness/gen/gen_isa.cc -o $o/main.o & pids+=($!)
for p in ${pids[@]}; do wait $p || exit 2; done
clang++-18 $o/*.o -o $o/gen_isa || exit 2
rm -f $o/*.o
python3 $verif/harness/gen/isa_battery.py $out/isa || exit 2
while read name prefix version; do
  timeout 60 $o/gen_isa $out/isa/$prefix.isa $name $prefix $version $out/isa $repo; rc=$?
  [ $rc = 0 ] || { echo "GENERATOR-FAILED $name exit $rc"; exit 3; }
done < $out/isa/isa_list
clang++-18 -std=c++17 -w -fsyntax-only -ferror-limit=${VF_ERRS:-5} -DVF_FMT_TOKENS -I$verif/shim_antlr -I$verif/shim -I$verif/runtime -I$verif/harness/gen -I$repo -I$out/isa -x c++ $out/isa/isa_expect.h || { echo "GENERATED-CODE-DOES-NOT-COMPILE"; exit 3; }
# Descriptions with a mistake are refused.
python3 $verif/harness/gen/isa_bad.py $out/bad || exit 2
mkdir -p $out/badout
for f in $out/bad/*.isa; do
  n=$(basename $f .isa); want=1; [ $n = good ] && want=0
  timeout 60 $o/gen_isa $f T $n 1 $out/badout $repo > $out/badlog 2>&1; rc=$?
  [ $rc = $want ] || { cat $out/badlog; echo "DESCRIPTION-WITH-A-MISTAKE $n: exit $rc, not $want"; exit 3; }
done
