// Semantic functions named by the battery of instruction set descriptions.
#pragma once
#include "mpact/sim/generic/instruction.h"
namespace vfi {
inline int g_sem = -1;
template <int N> void Sem(const mpact::sim::generic::Instruction*) { g_sem = N; }
constexpr int k_x = 0, k_y = 1;
}  // namespace vfi
