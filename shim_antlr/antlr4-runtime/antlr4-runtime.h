// A small stand-in for the ANTLR 4 C++ runtime: just what the visitors of /repo use.
// The grammar tables come from tools/antlr_mini.py.
#ifndef VF_ANTLR_RUNTIME_H
#define VF_ANTLR_RUNTIME_H
#include <any>
#include <cstddef>
#include <exception>
#include <functional>
#include <istream>
#include <iterator>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace antlrcpp { class BitSet {}; }
namespace antlr4 {
namespace dfa { class DFA {}; }
namespace atn { class ATNConfigSet {}; }
class Parser;
class Recognizer { public: virtual ~Recognizer() = default; };

namespace misc { struct Interval { size_t a, b; Interval(size_t a_, size_t b_) : a(a_), b(b_) {} }; }
class CharStream {
 public:
  std::string text;
  std::string getText(const misc::Interval& i) { return text.substr(i.a, i.b - i.a + 1); }
};
class Token {
 public:
  size_t type = 0, line = 0, col = 0, from = 0, to = 0;
  CharStream* in = nullptr;
  CharStream* getInputStream() const { return in; }
  size_t getStartIndex() const { return from; }
  size_t getStopIndex() const { return to; }
  std::string text;
  size_t getType() const { return type; }
  size_t getLine() const { return line; }
  size_t getCharPositionInLine() const { return col; }
  std::string getText() const { return text; }
};

namespace tree {
class ParseTree {
 public:
  virtual ~ParseTree() = default;
  virtual std::string getText() = 0;
};
class TerminalNode : public ParseTree {
 public:
  explicit TerminalNode(Token* t) : token(t) {}
  Token* getSymbol() const { return token; }
  std::string getText() override { return token->text; }
  Token* token;
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
 public:
  ~ParserRuleContext() override { for (auto* c : children) delete c; }
  std::string getText() override {
    std::string s;
    for (auto* c : children) s += c->getText();
    return s;
  }
  virtual void setLabel(int, Token*, ParserRuleContext*) {}
  Token* start = nullptr;
  Token* stop = nullptr;
  std::vector<tree::ParseTree*> children;

 protected:
  std::vector<tree::TerminalNode*> toks(size_t type) {
    std::vector<tree::TerminalNode*> v;
    for (auto* c : children)
      if (auto* t = dynamic_cast<tree::TerminalNode*>(c); t && t->token->type == type) v.push_back(t);
    return v;
  }
  tree::TerminalNode* tok(size_t type, size_t i) { auto v = toks(type); return i < v.size() ? v[i] : nullptr; }
  template <typename T> std::vector<T*> subs() {
    std::vector<T*> v;
    for (auto* c : children) if (auto* t = dynamic_cast<T*>(c)) v.push_back(t);
    return v;
  }
  template <typename T> T* sub(size_t i) { auto v = subs<T>(); return i < v.size() ? v[i] : nullptr; }
};

class ANTLRErrorListener {
 public:
  virtual ~ANTLRErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) {}
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t, size_t, const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t, size_t, size_t, atn::ATNConfigSet*) {}
};
class BaseErrorListener : public ANTLRErrorListener {};

namespace mini {
enum Kind { SEQ, ALT, OPT, STAR, PLUS, LIT, SET, TOK, RULE, ANY, END, LAZY };
struct Node { int kind, a, label; std::vector<int> kids; };
struct LrAlt { int index, label, node; };
struct Rule { int root; std::vector<LrAlt> prim, tails; };
struct Grammar {
  std::vector<Node> nodes;
  std::vector<Rule> rules;
  std::vector<std::string> names;
  ParserRuleContext* (*create)(int);
};
struct CharSet { int neg; std::set<int> chars; };
struct LexRoot { int node; size_t type; int skip; };
struct LexGrammar {
  std::vector<Node> nodes;
  std::vector<std::string> strs;
  std::vector<CharSet> sets;
  std::vector<int> rules;
  std::vector<LexRoot> roots;
};
}  // namespace mini

class ANTLRInputStream : public CharStream {
 public:
  void load(const std::string& s, bool = true) { text = s; }
  void load(std::istream& s, bool = true) {
    text.assign(std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>());
  }
};

class Lexer {
 public:
  Lexer(ANTLRInputStream* in, const mini::LexGrammar& g) : in_(in), g_(g) {}
  virtual ~Lexer() = default;
  std::vector<Token> run() {
    std::vector<Token> v;
    const std::string& s = in_->text;
    size_t pos = 0, line = 1, col = 0;
    while (pos < s.size()) {
      size_t best = pos;
      const mini::LexRoot* root = nullptr;
      for (auto& r : g_.roots) {
        auto e = ends(r.node, pos);
        if (!e.empty() && *e.rbegin() > best) { best = *e.rbegin(); root = &r; }
      }
      if (root == nullptr) { best = pos + 1; bad.push_back({line, col}); }
      if (root != nullptr && !root->skip) {
        Token t;
        t.type = root->type; t.in = in_; t.from = pos; t.to = best - 1; t.line = line; t.col = col; t.text = s.substr(pos, best - pos);
        v.push_back(t);
      }
      for (; pos < best; pos++) if (s[pos] == '\n') { line++; col = 0; } else { col++; }
    }
    Token t;
    t.line = line; t.col = col; t.text = "<EOF>";
    v.push_back(t);
    return v;
  }
  std::vector<std::pair<size_t, size_t>> bad;

 private:
  std::set<size_t> ends(int n, size_t pos) {
    const std::string& s = in_->text;
    const auto& d = g_.nodes[n];
    switch (d.kind) {
      case mini::LIT: { auto& l = g_.strs[d.a]; if (s.compare(pos, l.size(), l) == 0) return {pos + l.size()}; return {}; }
      case mini::SET: { if (pos >= s.size()) return {}; auto& c = g_.sets[d.a];
        if ((c.chars.count((unsigned char)s[pos]) != 0) != (c.neg != 0)) return {pos + 1}; return {}; }
      case mini::ANY: if (pos < s.size()) return {pos + 1}; return {};
      case mini::END: if (pos == s.size()) return {pos}; return {};
      case mini::RULE: return ends(g_.rules[d.a], pos);
      case mini::ALT: { std::set<size_t> r; for (int k : d.kids) { auto e = ends(k, pos); r.insert(e.begin(), e.end()); } return r; }
      case mini::SEQ: {
        std::set<size_t> cur{pos};
        for (size_t i = 0; i < d.kids.size(); i++) {
          if (g_.nodes[d.kids[i]].kind == mini::LAZY) {  // Shortest skip that lets the rest match.
            size_t p = *cur.begin();
            while (true) {
              std::set<size_t> rest{p};
              for (size_t j = i + 1; j < d.kids.size() && !rest.empty(); j++) {
                std::set<size_t> nx;
                for (auto q : rest) { auto e = ends(d.kids[j], q); nx.insert(e.begin(), e.end()); }
                rest = nx;
              }
              if (!rest.empty()) return rest;
              auto e = ends(g_.nodes[d.kids[i]].kids[0], p);
              if (e.empty()) return {};
              p = *e.rbegin();
            }
          }
          std::set<size_t> nx;
          for (auto q : cur) { auto e = ends(d.kids[i], q); nx.insert(e.begin(), e.end()); }
          cur = nx;
          if (cur.empty()) break;
        }
        return cur;
      }
      case mini::OPT: { auto e = ends(d.kids[0], pos); e.insert(pos); return e; }
      default: {  // STAR, PLUS
        std::set<size_t> all, work{pos};
        if (d.kind == mini::STAR) all.insert(pos);
        while (!work.empty()) {
          size_t q = *work.begin();
          work.erase(work.begin());
          for (auto e : ends(d.kids[0], q)) if (e > q && all.insert(e).second) work.insert(e);
        }
        return all;
      }
    }
  }
  ANTLRInputStream* in_;
  const mini::LexGrammar& g_;
};

class CommonTokenStream {
 public:
  explicit CommonTokenStream(Lexer* l) : lexer(l) {}
  Lexer* lexer;
};

class Parser : public Recognizer {
 public:
  Parser(CommonTokenStream* s, const mini::Grammar& g) : s_(s), g_(g) {}
  ~Parser() override { for (auto* r : roots_) delete r; }
  void removeErrorListeners() { listeners_.clear(); }
  void addErrorListener(ANTLRErrorListener* l) { listeners_.push_back(l); }
  Token* getCurrentToken() { return &tokens_[current_]; }

 protected:
  ParserRuleContext* parse(int rule) {
    if (!lexed_) {
      tokens_ = s_->lexer->run();
      lexed_ = true;
      for (auto& b : s_->lexer->bad) error(nullptr, b.first, b.second, "token recognition error");
    }
    auto& e = ruleEnds(rule, 0);
    auto* c = g_.create(rule);
    roots_.push_back(c);
    c->start = &tokens_[0];
    if (e.empty()) {
      auto& t = tokens_[far_];
      error(&t, t.line, t.col, "syntax error at '" + t.text + "'");
      return c;
    }
    current_ = std::min(*e.rbegin(), tokens_.size() - 1);
    fill(rule, 0, *e.rbegin(), c);
    return c;
  }

 private:
  using Ends = std::set<size_t>;
  void error(Token* t, size_t line, size_t col, const std::string& m) {
    for (auto* l : listeners_) l->syntaxError(this, t, line, col, m, nullptr);
  }
  const Ends& ruleEnds(int rule, size_t pos) {
    auto key = std::make_pair(rule, pos);
    auto it = rule_memo_.find(key);
    if (it != rule_memo_.end()) return it->second;
    auto& r = g_.rules[rule];
    Ends e;
    if (r.root >= 0) {
      e = ends(r.root, pos);
    } else {
      size_t end;
      delete climb(rule, pos, 1 << 30, &end);
      if (end != size_t(-1)) e.insert(end);
    }
    return rule_memo_[key] = e;
  }
  // Precedence climbing; alternatives listed earlier bind tighter.
  ParserRuleContext* climb(int rule, size_t pos, int max_alt, size_t* end) {
    auto& r = g_.rules[rule];
    ParserRuleContext* left = nullptr;
    *end = size_t(-1);
    for (auto& p : r.prim) {
      auto* c = g_.create(rule);
      size_t e = path(rule, p.node, pos, p.index, c);
      if (e != size_t(-1)) { left = c; *end = e; break; }
      delete c;
    }
    if (left == nullptr) return nullptr;
    span(left, pos, *end);
    while (true) {
      bool more = false;
      for (auto& t : r.tails) {
        if (t.index >= max_alt) continue;
        auto* c = g_.create(rule);
        size_t e = path(rule, t.node, *end, t.index, c);
        if (e == size_t(-1)) { delete c; continue; }
        c->children.insert(c->children.begin(), left);
        if (t.label >= 0) c->setLabel(t.label, nullptr, left);
        left = c; *end = e; more = true;
        span(left, pos, e);
        break;
      }
      if (!more) return left;
    }
  }
  // Deterministic match of an alternative of a left-recursive rule; recursive operands at the alternative's precedence.
  size_t path(int rule, int n, size_t pos, int prec, ParserRuleContext* c) {
    auto& d = g_.nodes[n];
    switch (d.kind) {
      case mini::SEQ: {
        for (size_t i = 0; i < d.kids.size(); i++) {
          bool last = i + 1 == d.kids.size();
          pos = path(rule, d.kids[i], pos, last ? prec : 1 << 30, c);
          if (pos == size_t(-1)) return pos;
        }
        return pos;
      }
      case mini::RULE:
        if (d.a == rule) {
          size_t end;
          auto* s = climb(rule, pos, prec, &end);
          if (s == nullptr) return -1;
          c->children.push_back(s);
          if (d.label >= 0) c->setLabel(d.label, nullptr, s);
          return end;
        }
        [[fallthrough]];
      default: {
        if (contains(n, rule)) {
          if (d.kind == mini::OPT) {
            auto mark = c->children.size();
            size_t e = path(rule, d.kids[0], pos, 1 << 30, c);
            if (e != size_t(-1)) return e;
            drop(c, mark);
            return pos;
          }
          if (d.kind == mini::STAR) {
            while (true) {
              auto mark = c->children.size();
              size_t e = path(rule, d.kids[0], pos, 1 << 30, c);
              if (e == size_t(-1)) { drop(c, mark); return pos; }
              pos = e;
            }
          }
        }
        auto e = ends(n, pos);
        if (e.empty()) return -1;
        build(n, pos, *e.rbegin(), c);
        return *e.rbegin();
      }
    }
  }
  bool contains(int n, int rule) {
    auto& d = g_.nodes[n];
    if (d.kind == mini::RULE) return d.a == rule;
    for (int k : d.kids) if (contains(k, rule)) return true;
    return false;
  }
  void drop(ParserRuleContext* c, size_t mark) {
    while (c->children.size() > mark) { delete c->children.back(); c->children.pop_back(); }
  }
  const Ends& ends(int n, size_t pos) {
    auto key = std::make_pair(n, pos);
    auto it = memo_.find(key);
    if (it != memo_.end()) return it->second;
    Ends r;
    auto& d = g_.nodes[n];
    switch (d.kind) {
      case mini::TOK:
        if (pos > far_) far_ = pos;
        if (tokens_[pos].type == size_t(d.a)) r.insert(pos + (d.a != 0));
        break;
      case mini::RULE: r = ruleEnds(d.a, pos); break;
      case mini::ALT: for (int k : d.kids) { auto& e = ends(k, pos); r.insert(e.begin(), e.end()); } break;
      case mini::SEQ: {
        Ends cur{pos};
        for (int k : d.kids) {
          Ends nx;
          for (auto q : cur) { auto& e = ends(k, q); nx.insert(e.begin(), e.end()); }
          cur = nx;
        }
        r = cur;
        break;
      }
      case mini::OPT: r = ends(d.kids[0], pos); r.insert(pos); break;
      default: {
        Ends work{pos};
        if (d.kind == mini::STAR) r.insert(pos);
        while (!work.empty()) {
          size_t q = *work.begin();
          work.erase(work.begin());
          for (auto e : ends(d.kids[0], q)) if (e > q && r.insert(e).second) work.insert(e);
        }
      }
    }
    return memo_[key] = r;
  }
  void span(ParserRuleContext* c, size_t pos, size_t end) {
    c->start = &tokens_[pos];
    c->stop = &tokens_[end > pos ? end - 1 : pos];
  }
  void fill(int rule, size_t pos, size_t end, ParserRuleContext* c) {
    span(c, pos, end);
    build(g_.rules[rule].root, pos, end, c);
  }
  // Builds the subtree of a node known to match [pos, end).
  void build(int n, size_t pos, size_t end, ParserRuleContext* c) {
    auto& d = g_.nodes[n];
    switch (d.kind) {
      case mini::TOK:
        c->children.push_back(new tree::TerminalNode(&tokens_[pos]));
        if (d.label >= 0) c->setLabel(d.label, &tokens_[pos], nullptr);
        return;
      case mini::RULE: {
        ParserRuleContext* s;
        if (g_.rules[d.a].root < 0) {
          size_t e;
          s = climb(d.a, pos, 1 << 30, &e);
        } else {
          s = g_.create(d.a);
          fill(d.a, pos, end, s);
        }
        c->children.push_back(s);
        if (d.label >= 0) c->setLabel(d.label, nullptr, s);
        return;
      }
      case mini::ALT:
        for (int k : d.kids) if (ends(k, pos).count(end)) { build(k, pos, end, c); return; }
        return;
      case mini::SEQ: seq(d.kids, 0, pos, end, c, true); return;
      case mini::OPT:
        if (ends(d.kids[0], pos).count(end)) build(d.kids[0], pos, end, c);
        return;
      default: loop(d.kids[0], pos, end, c); return;
    }
  }
  bool seq(const std::vector<int>& kids, size_t i, size_t pos, size_t end, ParserRuleContext* c, bool) {
    // Which end of kid i lets the rest reach the end: prefer the longest.
    std::vector<size_t> cut(kids.size() + 1);
    if (!cuts(kids, i, pos, end, cut)) return false;
    for (size_t j = i; j < kids.size(); j++) { build(kids[j], pos, cut[j], c); pos = cut[j]; }
    return true;
  }
  bool cuts(const std::vector<int>& kids, size_t i, size_t pos, size_t end, std::vector<size_t>& cut) {
    if (i == kids.size()) return pos == end;
    auto& e = ends(kids[i], pos);
    for (auto it = e.rbegin(); it != e.rend(); ++it) {
      if (*it > end) continue;
      cut[i] = *it;
      if (cuts(kids, i + 1, *it, end, cut)) return true;
    }
    return false;
  }
  void loop(int k, size_t pos, size_t end, ParserRuleContext* c) {
    // Reachability over iteration boundaries, then the first (shortest step) chain.
    std::vector<size_t> chain;
    std::set<size_t> dead;
    if (!chainTo(k, pos, end, chain, dead)) return;
    for (auto e : chain) { build(k, pos, e, c); pos = e; }
  }
  bool chainTo(int k, size_t pos, size_t end, std::vector<size_t>& chain, std::set<size_t>& dead) {
    // Iterative depth-first search over iteration boundaries.
    std::vector<size_t> stack{pos};
    while (!stack.empty()) {
      size_t q = stack.back();
      if (q == end) { chain.assign(stack.begin() + 1, stack.end()); return true; }
      bool pushed = false;
      auto& es = ends(k, q);
      for (auto it = es.rbegin(); it != es.rend(); ++it) {
        if (*it > q && *it <= end && !dead.count(*it)) { stack.push_back(*it); pushed = true; break; }
      }
      if (!pushed) { dead.insert(q); stack.pop_back(); }
    }
    return false;
  }
  CommonTokenStream* s_;
  const mini::Grammar& g_;
  bool lexed_ = false;
  std::vector<Token> tokens_;
  size_t far_ = 0;
  size_t current_ = 0;
  std::map<std::pair<int, size_t>, Ends> memo_, rule_memo_;
  std::vector<ANTLRErrorListener*> listeners_;
  std::vector<ParserRuleContext*> roots_;
};
}  // namespace antlr4
#endif
