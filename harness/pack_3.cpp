// flags: -O0
#include "pack.h"
std::string pack_3(const J& c) { return Packs<std::u32string, char[8], Lib::HTable<std::string, int32_t>, std::tuple<std::string, double, int64_t>, std::set<std::string>>(c).run(); }
