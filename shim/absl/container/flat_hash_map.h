#include "absl/container/shim_table.h"
