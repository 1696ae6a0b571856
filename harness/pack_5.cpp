// flags: -O0
#include "pack.h"
std::string pack_5(const J& c) { return Packs<std::string, int32_t, float, std::u32string, uint64_t>(c).run(); }
