#ifndef SHIM_ABSL_STR_SPLIT_H_
#define SHIM_ABSL_STR_SPLIT_H_
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace absl {
struct SkipWhitespace { bool operator()(std::string_view s) const { for (char c : s) if (!(c == ' ' || (c >= 9 && c <= 13))) return true; return false; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct ByString { std::string d; explicit ByString(std::string_view s) : d(s) {} };
struct ByAnyChar { std::string d; explicit ByAnyChar(std::string_view s) : d(s) {} };
template <typename T> struct MaxSplitsImpl { T d; int n; };
inline MaxSplitsImpl<char> MaxSplits(char d, int n) { return {d, n}; }
inline MaxSplitsImpl<std::string> MaxSplits(const char* d, int n) { return {std::string(d), n}; }
inline char ByChar(char c) { return c; }
namespace shim {
struct SplitResult {
  std::vector<std::string_view> v;
  operator std::vector<std::string_view>() const { return v; }
  operator std::vector<std::string>() const { std::vector<std::string> r; for (auto s : v) r.emplace_back(s); return r; }
  template <typename C, typename T = typename C::value_type, typename = decltype(std::declval<C&>().insert(std::declval<C&>().end(), std::declval<T>())), typename = std::enable_if_t<!std::is_same_v<C, std::string> && std::is_constructible_v<T, std::string_view>>>
  operator C() const { C r; for (auto s : v) r.insert(r.end(), T(s)); return r; }
  template <typename A, typename B> operator std::pair<A, B>() const { std::pair<A, B> p; if (v.size() > 0) p.first = A(v[0]); if (v.size() > 1) p.second = B(v[1]); return p; }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
};
template <typename P> SplitResult split(std::string_view s, std::string_view d, P p, int max = -1, bool any = false) {
  SplitResult r;
  size_t i = 0;
  while (true) {
    size_t j = max == 0 ? std::string_view::npos : any ? s.find_first_of(d, i) : s.find(d, i);
    std::string_view x = s.substr(i, j == std::string_view::npos ? std::string_view::npos : j - i);
    if (p(x)) r.v.push_back(x);
    if (j == std::string_view::npos) break;
    if (max > 0) max--;
    i = j + (any ? 1 : d.size());
  }
  return r;
}
}
template <typename P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, char c, P p = P()) { return shim::split(s, std::string_view(&c, 1), p); }
template <typename P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, std::string_view c, P p = P()) { return shim::split(s, c, p); }
template <typename P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, const char* c, P p = P()) { return shim::split(s, c, p); }
template <typename P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, ByString c, P p = P()) { return shim::split(s, c.d, p); }
template <typename P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, ByAnyChar c, P p = P()) { return shim::split(s, c.d, p, -1, true); }
template <typename P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, MaxSplitsImpl<char> c, P p = P()) { return shim::split(s, std::string_view(&c.d, 1), p, c.n); }
template <typename P = AllowEmpty> shim::SplitResult StrSplit(std::string_view s, MaxSplitsImpl<std::string> c, P p = P()) { return shim::split(s, c.d, p, c.n); }
}
#endif
