// flags: -O0
#include "pack.h"
std::string pack_4(const J& c) { return Packs<std::string, Dyn, Two, std::vector<Dyn>, std::vector<std::vector<int32_t>>>(c).run(); }
