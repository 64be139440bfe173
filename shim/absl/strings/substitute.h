#ifndef SHIM_ABSL_SUBSTITUTE_H_
#define SHIM_ABSL_SUBSTITUTE_H_
#include <string>
#include <string_view>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename... A> void SubstituteAndAppend(std::string* out, std::string_view fmt, const A&... a) {
  std::vector<std::string> args{StrCat(a)...};
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] == '$' && i + 1 < fmt.size()) {
      char c = fmt[++i];
      if (c == '$') out->push_back('$');
      else if (c >= '0' && c <= '9' && (size_t)(c - '0') < args.size()) out->append(args[c - '0']);
      continue;
    }
    out->push_back(fmt[i]);
  }
}
template <typename... A> std::string Substitute(std::string_view fmt, const A&... a) { std::string r; SubstituteAndAppend(&r, fmt, a...); return r; }
}
#endif
