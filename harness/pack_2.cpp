// flags: -O0
#include "pack.h"
std::string pack_2(const J& c) { return Packs<std::string, uint8_t, std::pair<int32_t, std::string>, std::list<std::string>, bool>(c).run(); }
