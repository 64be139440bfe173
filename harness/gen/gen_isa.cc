// gen_isa FILE ISA PREFIX VERSION OUTDIR REPO: runs the repository's instruction set generator.
#include <cstdio>
#include <cstdlib>
#include "absl/flags/flag.h"
#include "mpact/sim/decoder/instruction_set_visitor.h"
ABSL_DECLARE_FLAG(unsigned, generator);
int main(int, char** v) {
  FLAGS_generator.value = atoi(v[4]);
  mpact::sim::machine_description::instruction_set::InstructionSetVisitor visitor;
  auto s = visitor.Process({v[1]}, v[3], v[2], {v[6]}, v[5]);
  if (!s.ok()) fprintf(stderr, "%s\n", std::string(s.message()).c_str());
  return s.ok() ? 0 : 1;
}
