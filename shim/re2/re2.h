#ifndef VF_RE2_H
#define VF_RE2_H
// Stand-in: a backtracking matcher for the expressions used by the code under check: literals, \ escapes, \d \s \w, '.',
// classes, groups with alternatives, and the quantifiers * + ? {n}. Bytes are taken as characters.
#include <unistd.h>
#include <string>
#include <string_view>
#include <vector>
class RE2 {
 public:
  RE2(const char* p) : p_(p) { Parse(); }
  RE2(const std::string& p) : p_(p) { Parse(); }
  RE2(std::string_view p) : p_(p) { Parse(); }
  bool ok() const { return true; }
  const std::string& pattern() const { return p_; }
  int NumberOfCapturingGroups() const { return groups_; }
  template <typename... A> static bool FullMatch(std::string_view s, const RE2& re, A... a) { return re.Run(s, true, a...) ; }
  template <typename... A> static bool PartialMatch(std::string_view s, const RE2& re, A... a) { return re.Run(s, false, a...); }
  // The beginning of `s`, which is removed from it.
  template <typename... A> static bool Consume(std::string_view* s, const RE2& re, A... a) {
    re.once_ = true;
    bool r = re.Run(*s, false, a...);
    re.once_ = false;
    if (r) s->remove_prefix(re.end_ - s->data());
    return r;
  }
  // The whole of `s` against an expression, from outside of this class: see shim users.
  struct Node { enum K { kChar, kAny, kClass, kGroup, kBegin, kEnd } k; unsigned char c = 0; bool neg = false; std::vector<std::pair<unsigned char, unsigned char>> r; std::vector<std::vector<Node>> alt; int group = 0; int lo = 1, hi = 1; bool lazy = false; };
 private:
  using Seq = std::vector<Node>;
  struct Cap { const char* b = nullptr; const char* e = nullptr; };
  static bool Store(std::string* d, const Cap& c) { if (d) *d = c.b ? std::string(c.b, c.e) : std::string(); return true; }
  static bool Store(std::string_view* d, const Cap& c) { if (d) *d = c.b ? std::string_view(c.b, c.e - c.b) : std::string_view(); return true; }
  template <typename... A> bool Run(std::string_view s, bool full, A... a) const {
    b_ = s.data(); e_ = s.data() + s.size();
    for (const char* p = b_; p <= e_; p++) {
      caps_.assign(groups_ + 1, Cap());
      full_ = full;
      if (MatchAlt(top_, 0, p, nullptr)) { int i = 0; bool r = true; (..., (r = r && Store(a, caps_[++i]))); return r; }
      if (full || once_) break;
    }
    return false;
  }
  // What remains to be matched after the current sequence.
  struct Cont { const Seq* s; size_t i; int count; const Node* group; const char* start; const Cont* next; };
  bool MatchAlt(const std::vector<Seq>& alts, int, const char* p, const Cont* k) const {
    for (const Seq& s : alts) if (Match(s, 0, 0, p, k)) return true;
    return false;
  }
  bool Match(const Seq& s, size_t i, int count, const char* p, const Cont* k) const {
    if (i == s.size()) {
      if (!k) { end_ = p; return !full_ || p == e_; }
      Cap old;
      if (k->group && k->group->group) { old = caps_[k->group->group]; caps_[k->group->group] = {k->start, p}; }
      if (p != k->start && Match(*k->s, k->i, k->count, p, k->next)) return true;
      if (p == k->start && Match(*k->s, k->i + 1, 0, p, k->next)) return true;
      if (k->group && k->group->group) caps_[k->group->group] = old;
      return false;
    }
    const Node& n = s[i];
    if (n.k == Node::kBegin) return p == b_ && Match(s, i + 1, 0, p, k);
    if (n.k == Node::kEnd) return p == e_ && Match(s, i + 1, 0, p, k);
    if (n.k == Node::kGroup) {
      if (n.lazy && count >= n.lo && Match(s, i + 1, 0, p, k)) return true;
      if (n.hi < 0 || count < n.hi) {
        Cont c{&s, i, count + 1, &n, p, k};
        if (MatchAlt(n.alt, 0, p, &c)) return true;
      }
      return !n.lazy && count >= n.lo && Match(s, i + 1, 0, p, k);
    }
    const char* q = p;
    int m = 0;
    if (n.lazy) {
      for (;; m++, q++) {
        if (m >= n.lo && Match(s, i + 1, 0, q, k)) return true;
        if (!((n.hi < 0 || m < n.hi) && q < e_ && Test(n, static_cast<unsigned char>(*q)))) return false;
      }
    }
    while ((n.hi < 0 || m < n.hi) && q < e_ && Test(n, static_cast<unsigned char>(*q))) { m++; q++; }
    for (; m >= n.lo; m--, q--) if (Match(s, i + 1, 0, q, k)) return true;
    return false;
  }
  static bool Test(const Node& n, unsigned char c) {
    if (n.k == Node::kChar) return c == n.c;
    if (n.k == Node::kAny) return c != '\n';
    unsigned in = 0;
    for (const auto& [a, b] : n.r) in |= static_cast<unsigned>(c >= a) & static_cast<unsigned>(c <= b);
    return (in != 0) != n.neg;
  }
  static void Escape(char c, Node* n) {
    n->k = Node::kClass;
    if (c == 'd') n->r.push_back({'0', '9'});
    else if (c == 's') { n->r.push_back({' ', ' '}); n->r.push_back({9, 10}); n->r.push_back({12, 13}); }
    else if (c == 'S') { n->neg = true; n->r.push_back({' ', ' '}); n->r.push_back({9, 10}); n->r.push_back({12, 13}); }
    else if (c == 'w') { n->r.push_back({'0', '9'}); n->r.push_back({'a', 'z'}); n->r.push_back({'A', 'Z'}); n->r.push_back({'_', '_'}); }
    else { n->k = Node::kChar; n->c = c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c; }
  }
  void Parse() { groups_ = 0; size_t i = 0; top_ = ParseAlt(i); }
  std::vector<Seq> ParseAlt(size_t& i) {
    std::vector<Seq> alts(1);
    for (; i < p_.size() && p_[i] != ')';) {
      char c = p_[i];
      if (c == '|') { alts.emplace_back(); i++; continue; }
      Node n;
      if (c == '(') {
        n.k = Node::kGroup; i++;
        if (p_.compare(i, 2, "?:") == 0) i += 2; else n.group = ++groups_;
        n.alt = ParseAlt(i); i++;
      } else if (c == '[') {
        n.k = Node::kClass; i++;
        if (p_[i] == '^') { n.neg = true; i++; }
        for (bool first = true; p_[i] != ']' || first; first = false) {
          unsigned char a = p_[i++];
          if (a == '\\') {
            Node t; Escape(p_[i++], &t);
            if (t.k == Node::kClass) { for (auto& x : t.r) n.r.push_back(x); continue; }
            a = t.c;
          }
          unsigned char b = a;
          if (p_[i] == '-' && p_[i + 1] != ']') { b = p_[i + 1]; i += 2; if (b == '\\') b = p_[i++]; }
          n.r.push_back({a, b});
        }
        i++;
      } else if (c == '\\') { Escape(p_[i + 1], &n); i += 2; }
      else if (c == '.') { n.k = Node::kAny; i++; }
      else if (c == '^') { n.k = Node::kBegin; i++; }
      else if (c == '$') { n.k = Node::kEnd; i++; }
      else { n.k = Node::kChar; n.c = c; i++; }
      if (i < p_.size()) {
        if (p_[i] == '*') { n.lo = 0; n.hi = -1; i++; }
        else if (p_[i] == '+') { n.hi = -1; i++; }
        else if (p_[i] == '?') { n.lo = 0; i++; }
        else if (p_[i] == '{') {
          int a = 0; i++;
          while (p_[i] >= '0' && p_[i] <= '9') a = a * 10 + (p_[i++] - '0');
          n.lo = n.hi = a;
          if (p_[i] == ',') { i++; int b = 0; if (p_[i] == '}') n.hi = -1; else { while (p_[i] >= '0' && p_[i] <= '9') b = b * 10 + (p_[i++] - '0'); n.hi = b; } }
          i++;
        }
        if (i < p_.size() && p_[i] == '?' && (n.lo != 1 || n.hi != 1)) { n.lazy = true; i++; }
      }
      alts.back().push_back(n);
    }
    return alts;
  }
  std::string p_;
  int groups_ = 0;
  std::vector<Seq> top_;
  mutable const char* b_ = nullptr;
  mutable const char* e_ = nullptr;
  mutable const char* end_ = nullptr;
  mutable bool full_ = false, once_ = false;
  mutable std::vector<Cap> caps_;
};
// An expression compiled when it is first used.
class LazyRE2 {
 public:
  const char* pattern_;
  mutable RE2* re_;
  const RE2& operator*() const { if (!re_) re_ = new RE2(pattern_); return *re_; }
  const RE2* operator->() const { return &**this; }
};
#endif
