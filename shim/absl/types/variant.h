#ifndef SHIM_ABSL_VARIANT_H_
#define SHIM_ABSL_VARIANT_H_
#include <variant>
namespace absl { using std::variant; using std::variant_size; using std::get; using std::get_if; using std::holds_alternative; using std::monostate; using std::visit; }
#endif
