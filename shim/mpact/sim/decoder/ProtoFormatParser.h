#ifndef VF_PFPARSER_H
#define VF_PFPARSER_H
#include "antlr4-runtime/antlr4-runtime.h"
namespace mpact::sim::decoder::proto_fmt::generated {
class ProtoFormatParser : public antlr4::Parser {
 public:
  explicit ProtoFormatParser(antlr4::CommonTokenStream*) {}
#define VF_CTX(n) \
  class n##Context : public antlr4::ParserRuleContext {};
  VF_CTX(Constraint_expr) VF_CTX(Declaration) VF_CTX(Decoder_attribute) VF_CTX(Decoder_def) VF_CTX(Field_constraint) VF_CTX(If_not) VF_CTX(Include_file)
  VF_CTX(Instruction_def) VF_CTX(Instruction_group_def) VF_CTX(Number) VF_CTX(Qualified_ident) VF_CTX(Setter_def) VF_CTX(Setter_group_def)
  VF_CTX(Setter_ref) VF_CTX(Top_level) VF_CTX(Value)
#undef VF_CTX
};
}  // namespace mpact::sim::decoder::proto_fmt::generated
#endif
