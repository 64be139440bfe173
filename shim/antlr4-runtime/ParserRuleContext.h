#ifndef VF_ANTLR_PRC_H
#define VF_ANTLR_PRC_H
#include <string>
#include "antlr4-runtime/Token.h"
namespace antlr4 {
namespace tree {
class TerminalNode {
 public:
  virtual ~TerminalNode() = default;
  virtual std::string getText() { return ""; }
};
}  // namespace tree
class ParserRuleContext {
 public:
  virtual ~ParserRuleContext() = default;
  virtual std::string getText() { return ""; }
  Token* start = nullptr;
  Token* stop = nullptr;
};
class Parser {};
class Lexer {};
}  // namespace antlr4
#endif
