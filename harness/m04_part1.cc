#include "m04_ops.h"
std::vector<Fns> M04Part1() { return Some<33>(std::make_index_sequence<32>()); }
