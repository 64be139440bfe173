// Stand-in for the ANTLR runtime (not installed): only the declarations that
// the decoder generators' data model refers to. No parser behaviour.
#ifndef VF_ANTLR_TOKEN_H
#define VF_ANTLR_TOKEN_H
#include <cstddef>
#include <string>
namespace antlr4 {
class Token {
 public:
  virtual ~Token() = default;
  virtual std::string getText() const { return ""; }
  virtual size_t getLine() const { return 0; }
  virtual size_t getCharPositionInLine() const { return 0; }
};
}  // namespace antlr4
#endif
