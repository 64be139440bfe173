#ifndef VF_ANTLR_BEL_H
#define VF_ANTLR_BEL_H
#include <cstddef>
#include <exception>
#include <string>
#include "antlr4-runtime/Token.h"
#include "antlr4-runtime/support/Declarations.h"
namespace antlr4 {
class BaseErrorListener {
 public:
  virtual ~BaseErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) {}
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t, size_t, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t, size_t, size_t, atn::ATNConfigSet*) {}
};
}  // namespace antlr4
#endif
