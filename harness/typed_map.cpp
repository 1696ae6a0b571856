#include "typed.h"
bool field_map(Ex& x, const J& ty)
{
    auto y = type_name(ty);
    if(y == "map.s8.i32") { exch<std::map<std::string, int32_t>>(x, ty); return true; }
    if(y == "map.s8.u8") { exch<std::map<std::string, uint8_t>>(x, ty); return true; }
    if(y == "map.s8.f64") { exch<std::map<std::string, double>>(x, ty); return true; }
    if(y == "map.s8.s8") { exch<std::map<std::string, std::string>>(x, ty); return true; }
    if(y == "map.s8.s16") { exch<std::map<std::string, std::u16string>>(x, ty); return true; }
    if(y == "map.s8.byt") { exch<std::map<std::string, Bytes>>(x, ty); return true; }
    if(y == "map.s8.dyn") { exch<std::map<std::string, Dyn>>(x, ty); return true; }
    if(y == "map.s8.vec.i32") { exch<std::map<std::string, std::vector<int32_t>>>(x, ty); return true; }
    if(y == "map.s8.vec.dyn") { exch<std::map<std::string, std::vector<Dyn>>>(x, ty); return true; }
    if(y == "map.s8.map.s8.dyn") { exch<std::map<std::string, std::map<std::string, Dyn>>>(x, ty); return true; }
    if(y == "map.i32.s8") { exch<std::map<int32_t, std::string>>(x, ty); return true; }
    if(y == "map.i32.dyn") { exch<std::map<int32_t, Dyn>>(x, ty); return true; }
    if(y == "umap.u32.i32") { exch<std::unordered_map<uint32_t, int32_t>>(x, ty); return true; }
    if(y == "umap.u32.s8") { exch<std::unordered_map<uint32_t, std::string>>(x, ty); return true; }
    if(y == "umap.u32.dyn") { exch<std::unordered_map<uint32_t, Dyn>>(x, ty); return true; }
    if(y == "umap.u32.vec.dyn") { exch<std::unordered_map<uint32_t, std::vector<Dyn>>>(x, ty); return true; }
    if(y == "umap.s8.i32") { exch<std::unordered_map<std::string, int32_t>>(x, ty); return true; }
    if(y == "umap.s8.dyn") { exch<std::unordered_map<std::string, Dyn>>(x, ty); return true; }
    if(y == "mmap.i32.s8") { exch<std::multimap<int32_t, std::string>>(x, ty); return true; }
    if(y == "mmap.i32.dyn") { exch<std::multimap<int32_t, Dyn>>(x, ty); return true; }
    return false;
}
