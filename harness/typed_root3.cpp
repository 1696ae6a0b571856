#include "typed_root.h"
typedef int32_t IntArray[3];
typedef Dyn DynArray[3];
bool root_3(const J& c, std::string& r)
{
    auto y = type_name(c["ty"]);
    if(y == "list.two") { r = run<std::list<Two>>(c); return true; }
    if(y == "map.s8.dyn") { r = run<std::map<std::string, Dyn>>(c); return true; }
    if(y == "umap.u32.i32") { r = run<std::unordered_map<uint32_t, int32_t>>(c); return true; }
    return false;
}
