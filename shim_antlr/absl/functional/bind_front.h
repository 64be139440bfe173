// The one call in the generators binds the first argument of a comparison function.
#pragma once
#include <utility>
namespace absl {
template <typename F, typename A> auto bind_front(F f, A a) { return [f, a](auto&&... r) { return f(a, std::forward<decltype(r)>(r)...); }; }
}
