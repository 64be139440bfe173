#ifndef VF_BFPARSER_H
#define VF_BFPARSER_H
#include "antlr4-runtime/antlr4-runtime.h"
namespace mpact::sim::decoder::bin_format::generated {
class BinFormatParser : public antlr4::Parser {
 public:
  explicit BinFormatParser(antlr4::CommonTokenStream*) {}
#define VF_CTX(n) \
  class n##Context : public antlr4::ParserRuleContext {};
  VF_CTX(Bit_field_spec) VF_CTX(Bit_index_range) VF_CTX(Decoder_def) VF_CTX(Declaration_list) VF_CTX(Field_constraint)
  VF_CTX(Field_def) VF_CTX(Format_def) VF_CTX(Group_name_list) VF_CTX(Include_file) VF_CTX(Instruction_group_def)
  VF_CTX(Instruction_def) VF_CTX(Namespace_decl) VF_CTX(Number) VF_CTX(Once) VF_CTX(Overlay_def) VF_CTX(Top_level)
#undef VF_CTX
};
}  // namespace mpact::sim::decoder::bin_format::generated
#endif
