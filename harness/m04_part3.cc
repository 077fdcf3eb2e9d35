#include "m04_ops.h"
std::vector<Fns> M04Part3() { return Some<97>(std::make_index_sequence<32>()); }
