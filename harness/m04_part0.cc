#include "m04_ops.h"
std::vector<Fns> M04Part0() { return Some<1>(std::make_index_sequence<32>()); }
