// A stand-in for the two RE2 calls of the visitors, over std::regex.
#ifndef VF_ANTLR_RE2_H
#define VF_ANTLR_RE2_H
#include <regex>
#include <string>
#include "absl/strings/string_view.h"
class RE2 {
 public:
  RE2(const std::string& p) : re(p) {}
  RE2(const char* p) : re(p) {}
  static bool PartialMatch(const std::string& s, const RE2& r) { return std::regex_search(s, r.re); }
  static int GlobalReplace(std::string* s, const RE2& r, absl::string_view with) {
    std::string in = *s, out;
    int n = 0;
    auto it = std::sregex_iterator(in.begin(), in.end(), r.re);
    size_t pos = 0;
    for (; it != std::sregex_iterator(); ++it, ++n) {
      out += in.substr(pos, it->position() - pos);
      out += std::string(with);
      pos = it->position() + it->length();
    }
    out += in.substr(pos);
    *s = out;
    return n;
  }
  std::regex re;
};
#endif
