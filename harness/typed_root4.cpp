#include "typed_root.h"
typedef int32_t IntArray[3];
typedef Dyn DynArray[3];
bool root_4(const J& c, std::string& r)
{
    auto y = type_name(c["ty"]);
    if(y == "arr.i32") { r = run<IntArray>(c); return true; }
    if(y == "arr.dyn") { r = run<DynArray>(c); return true; }
    if(y == "ht.i32") { r = run<Lib::HTable<std::string, int32_t>>(c); return true; }
    return false;
}
