#ifndef VF_BFLEXER_H
#define VF_BFLEXER_H
#include "antlr4-runtime/antlr4-runtime.h"
namespace mpact::sim::decoder::bin_format::generated {
class BinFormatLexer : public antlr4::Lexer {
 public:
  explicit BinFormatLexer(antlr4::ANTLRInputStream*) {}
};
}  // namespace mpact::sim::decoder::bin_format::generated
#endif
