#include "m04_ops.h"
std::vector<Fns> M04Part2() { return Some<65>(std::make_index_sequence<32>()); }
