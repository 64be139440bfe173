#ifndef SHIM_ABSL_MATCH_H_
#define SHIM_ABSL_MATCH_H_
#include <string_view>
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != std::string_view::npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != std::string_view::npos; }
inline bool StartsWith(std::string_view t, std::string_view p) { return t.size() >= p.size() && t.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view t, std::string_view p) { return t.size() >= p.size() && t.substr(t.size() - p.size()) == p; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (ascii_tolower((unsigned char)a[i]) != ascii_tolower((unsigned char)b[i])) return false;
  return true;
}
inline bool StartsWithIgnoreCase(std::string_view t, std::string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view t, std::string_view p) { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p); }
}
#endif
