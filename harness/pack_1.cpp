// flags: -O0
#include "pack.h"
std::string pack_1(const J& c) { return Packs<std::u16string, double, std::map<std::string, Dyn>, VBin<uint8_t>, std::u16string>(c).run(); }
