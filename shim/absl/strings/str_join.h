#ifndef SHIM_ABSL_STR_JOIN_H_
#define SHIM_ABSL_STR_JOIN_H_
#include <initializer_list>
#include <string>
#include <utility>
#include "absl/strings/str_cat.h"
namespace absl {
namespace shim {
struct AlphaNumFmt { template <typename T> void operator()(std::string* o, const T& x) const { StrAppend(o, x); } };
struct StreamFmt { template <typename T> void operator()(std::string* o, const T& x) const { StrAppend(o, x); } };
template <typename A, typename B> struct PairFmt {
  A a; std::string sep; B b;
  template <typename P> void operator()(std::string* o, const P& p) { a(o, p.first); o->append(sep); b(o, p.second); }
};
template <typename F> struct DerefFmt { F f; template <typename P> void operator()(std::string* o, const P& p) { f(o, *p); } };
}
inline shim::AlphaNumFmt AlphaNumFormatter() { return {}; }
template <typename A, typename B> shim::PairFmt<A, B> PairFormatter(A a, std::string_view s, B b) { return {a, std::string(s), b}; }
inline shim::PairFmt<shim::AlphaNumFmt, shim::AlphaNumFmt> PairFormatter(std::string_view s) { return {{}, std::string(s), {}}; }
template <typename F> shim::DerefFmt<F> DereferenceFormatter(F f) { return {f}; }
template <typename It, typename F, typename = typename std::iterator_traits<It>::iterator_category> std::string StrJoin(It a, It b, std::string_view sep, F f) {
  std::string o; bool first = true;
  for (; a != b; ++a) { if (!first) o.append(sep.data(), sep.size()); first = false; f(&o, *a); }
  return o;
}
template <typename It, typename = typename std::iterator_traits<It>::iterator_category> std::string StrJoin(It a, It b, std::string_view sep) { return StrJoin(a, b, sep, shim::AlphaNumFmt()); }
template <typename R, typename F, typename = decltype(std::begin(std::declval<const R&>()))> std::string StrJoin(const R& r, std::string_view sep, F f) { return StrJoin(std::begin(r), std::end(r), sep, f); }
template <typename R> std::string StrJoin(const R& r, std::string_view sep) { return StrJoin(std::begin(r), std::end(r), sep, shim::AlphaNumFmt()); }
template <typename T> std::string StrJoin(std::initializer_list<T> r, std::string_view sep) { return StrJoin(r.begin(), r.end(), sep, shim::AlphaNumFmt()); }
template <typename T, typename F> std::string StrJoin(std::initializer_list<T> r, std::string_view sep, F f) { return StrJoin(r.begin(), r.end(), sep, f); }
}
#endif
