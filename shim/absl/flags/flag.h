#ifndef VF_ABSL_FLAG_H
#define VF_ABSL_FLAG_H
// Stand-in: a flag is a variable with its default value.
#define ABSL_FLAG(type, name, value, help) type FLAGS_##name = value
#define ABSL_DECLARE_FLAG(type, name) extern type FLAGS_##name
namespace absl {
template <typename T> T GetFlag(const T& f) { return f; }
template <typename T, typename V> void SetFlag(T* f, const V& v) { *f = T(v); }
}  // namespace absl
#endif
