#ifndef VF_FLAG_H
#define VF_FLAG_H
namespace absl { template <typename T> struct Flag { T value; }; template <typename T> T GetFlag(const Flag<T>& f) { return f.value; } }
#define ABSL_FLAG(T, name, def, help) absl::Flag<T> FLAGS_##name{def}
#define ABSL_DECLARE_FLAG(T, name) extern absl::Flag<T> FLAGS_##name
#endif
