// flags: -O0
#include "pack.h"
std::string pack_0(const J& c) { return Packs<std::string, int64_t, std::string, std::vector<int32_t>, Dyn>(c).run(); }
