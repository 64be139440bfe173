// A small reader for the subset of the .bin_fmt language the batteries use
// (formats, overlays, instruction groups). Independent of the repository's
// parser; its result is handed to the repository's API and to the oracle.
#pragma once
#include "bingen.h"
namespace bg {
struct Con {
  std::string lhs, op, rhs;  // rhs names a field/overlay when not empty
  int64_t value = 0;
};
struct Enc {
  std::string name, fmt, parent;  // parent: specialized instruction
  std::vector<Con> cons;
};
struct Grp {
  std::string name, fmt;
  int width;
  std::vector<Enc> encs;
};
struct Desc {
  std::vector<Fmt> fmts;
  std::vector<Grp> grps;
  const Fmt& fmt(const std::string& n) const {
    for (auto& f : fmts)
      if (f.name == n) return f;
    std::cerr << "battery: no format " << n << "\n";
    exit(1);
  }
};
class Reader {
 public:
  Reader(const std::string& file) : file_(file) {
    std::ifstream in(file);
    std::string l, all;
    while (std::getline(in, l)) all += l.substr(0, l.find("//")) + "\n";
    for (size_t i = 0; i < all.size();) {
      char c = all[i];
      if (isspace(c)) { i++; continue; }
      if (isalnum(c) || c == '_') {
        size_t j = i;
        while (j < all.size() && (isalnum(all[j]) || all[j] == '_' || all[j] == '\'')) j++;
        t_.push_back(all.substr(i, j - i));
        i = j;
        continue;
      }
      std::string two = all.substr(i, 2);
      if (two == ".." || two == "==" || two == "!=" || two == "<=" || two == ">=") { t_.push_back(two); i += 2; continue; }
      t_.push_back(std::string(1, c));
      i++;
    }
    t_.push_back("<eof>");
  }
  Desc Read() {
    Desc d;
    while (t_[p_] != "<eof>") {
      if (eat("format")) Format(d);
      else if (eat("instruction")) { want("group"); Group(d); }
      else if (eat("decoder")) { while (!eat("}")) p_++; eat(";"); }
      else fail();
    }
    return d;
  }

 private:
  void fail() {
    std::cerr << "battery: " << file_ << ": unexpected '" << t_[p_] << "' after '" << t_[p_ - 1] << "'\n";
    exit(1);
  }
  bool eat(const std::string& s) { return t_[p_] == s ? (p_++, true) : false; }
  void want(const std::string& s) { if (!eat(s)) fail(); }
  std::string id() { if (!isalpha(t_[p_][0]) && t_[p_][0] != '_') fail(); return t_[p_++]; }
  bool isnum() { return isdigit(t_[p_][0]) || t_[p_] == "-"; }
  int64_t num(int* w = nullptr) {
    bool neg = eat("-");
    std::string s;
    for (char c : t_[p_++]) if (c != '\'') s += c;
    if (!isdigit(s[0])) p_--, fail();
    if (s.substr(0, 2) == "0b") { if (w) *w = s.size() - 2; return (int64_t)std::stoull(s.substr(2), nullptr, 2) * (neg ? -1 : 1); }
    return (int64_t)std::stoull(s, nullptr, s.substr(0, 2) == "0x" ? 16 : 10) * (neg ? -1 : 1);
  }
  int sub() { want("["); int n = num(); want("]"); return n; }
  void ranges(Comp& c) {
    want("[");
    bool first = true;
    do {
      int hi = num(), lo = hi;
      if (eat("..")) lo = num();
      if (first) c.hi = hi, c.lo = lo; else c.more.push_back({hi, lo});
      first = false;
    } while (eat(","));
    want("]");
  }
  void Format(Desc& d) {
    Fmt f;
    f.name = id();
    f.width = sub();
    if (eat(":")) f.base = id();
    want("{");
    bool fields = true;
    while (!eat("}")) {
      if (eat("fields")) { want(":"); fields = true; continue; }
      if (eat("overlays")) { want(":"); fields = false; continue; }
      if (fields && eat("format")) {
        Fld x{"", false, 0, id()};
        x.name = id();
        x.width = d.fmt(x.fmt).width;
        if (t_[p_] == "[") x.size = sub();
        want(";");
        f.fields.push_back(x);
        continue;
      }
      bool sg = eat("signed");
      if (!sg) want("unsigned");
      std::string n = id();
      int w = sub();
      if (fields) {
        f.fields.push_back(Fld{n, sg, w, ""});
      } else {
        Ovl o{n, sg, w, {}};
        want("=");
        do {
          if (t_[p_] == "[") { Comp c{3}; ranges(c); o.comps.push_back(c); }
          else if (isnum()) { int w2 = 0; int64_t v = num(&w2); o.comps.push_back(K(v, w2)); }
          else { std::string x = id(); if (t_[p_] == "[") { Comp c{2}; c.field = x; ranges(c); o.comps.push_back(c); } else o.comps.push_back(W(x)); }
        } while (eat(","));
        f.ovls.push_back(o);
      }
      want(";");
    }
    eat(";");
    f.place();
    d.fmts.push_back(f);
  }
  void Group(Desc& d) {
    Grp g;
    g.name = id();
    g.width = sub();
    want(":");
    g.fmt = id();
    want("{");
    while (!eat("}")) {
      Enc e;
      eat("!");
      e.name = id();
      want(":");
      if (eat("specializes")) {
        e.parent = id();
        for (auto& x : g.encs) if (x.name == e.parent) e.fmt = x.fmt;
      } else {
        e.fmt = id();
      }
      want(":");
      do {
        Con c;
        c.lhs = id();
        c.op = t_[p_++];
        if (isnum()) c.value = num(); else c.rhs = id();
        e.cons.push_back(c);
      } while (eat(","));
      want(";");
      g.encs.push_back(e);
    }
    eat(";");
    d.grps.push_back(g);
  }
  std::string file_;
  std::vector<std::string> t_;
  size_t p_ = 0;
};
}  // namespace bg
