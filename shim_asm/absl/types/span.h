#ifndef SHIM_ASM_SPAN_
#define SHIM_ASM_SPAN_
#include <cstddef>
namespace absl {
template <typename T> struct Span { T* p = nullptr; size_t n = 0; T* data() const { return p; } size_t size() const { return n; } T& operator[](size_t i) const { return p[i]; } T* begin() const { return p; } T* end() const { return p + n; } bool empty() const { return n == 0; } };
template <typename T> Span<T> MakeSpan(T* p, size_t n) { return {p, n}; }
}
#endif
