#ifndef SHIM_ABSL_STR_REPLACE_H_
#define SHIM_ABSL_STR_REPLACE_H_
#include <initializer_list>
#include <string>
#include <string_view>
#include <utility>
namespace absl {
inline std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> rs) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    bool hit = false;
    for (auto& r : rs) if (!r.first.empty() && s.substr(i, r.first.size()) == r.first) { o += std::string(r.second); i += r.first.size(); hit = true; break; }
    if (!hit) o.push_back(s[i++]);
  }
  return o;
}
inline int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> rs, std::string* t) {
  std::string r = StrReplaceAll(std::string_view(*t), rs); int d = r != *t; *t = r; return d;
}
}
#endif
