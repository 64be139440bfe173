#ifndef VF_ANTLR_DECL_H
#define VF_ANTLR_DECL_H
namespace antlrcpp {
class BitSet {};
}
namespace antlr4 {
class Token;
class Recognizer {};
class Parser;
namespace dfa {
class DFA {};
}
namespace atn {
class ATNConfigSet {};
}
}  // namespace antlr4
#endif
