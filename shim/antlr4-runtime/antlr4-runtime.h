#ifndef VF_ANTLR_RT_H
#define VF_ANTLR_RT_H
#include <istream>
#include <string>
#include "antlr4-runtime/BaseErrorListener.h"
#include "antlr4-runtime/ParserRuleContext.h"
namespace antlr4 {
class ANTLRInputStream {
 public:
  void load(std::istream&, bool = false) {}
  void load(const std::string&, bool = false) {}
};
class CommonTokenStream {
 public:
  explicit CommonTokenStream(Lexer*) {}
};
}  // namespace antlr4
#endif
