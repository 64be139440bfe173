// Log messages go to stderr; FATAL aborts.
#ifndef SHIM_ABSL_LOG_H_
#define SHIM_ABSL_LOG_H_
#include <cstdlib>
#include <iostream>
#include <type_traits>
namespace absl { namespace shim {
struct Sink { ~Sink() { std::cerr << '\n'; } template <typename T> Sink& operator<<(const T& x) { std::cerr << x; return *this; } };
struct FatalSink { [[noreturn]] ~FatalSink() { ::abort(); } template <typename T> FatalSink& operator<<(const T&) { return *this; } };
struct Voidify { template <typename T> void operator&&(T&&) const {} };
} }
#define SHIM_LOG_INFO ::absl::shim::Sink()
#define SHIM_LOG_WARNING ::absl::shim::Sink()
#define SHIM_LOG_ERROR ::absl::shim::Sink()
#define SHIM_LOG_FATAL ::absl::shim::FatalSink()
#define LOG(x) SHIM_LOG_##x
#define LOG_IF(x, c) if (c) SHIM_LOG_##x
#define LOG_FIRST_N(x, n) SHIM_LOG_##x
#define LOG_EVERY_N(x, n) SHIM_LOG_##x
#define DLOG(x) SHIM_LOG_##x
#define VLOG(x) ::absl::shim::Sink()
#endif
