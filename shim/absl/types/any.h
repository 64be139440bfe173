#ifndef SHIM_ABSL_ANY_H_
#define SHIM_ABSL_ANY_H_
#include <any>
namespace absl { using std::any; using std::any_cast; }
#endif
