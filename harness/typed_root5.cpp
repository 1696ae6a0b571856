#include "typed_root.h"
typedef int32_t IntArray[3];
typedef Dyn DynArray[3];
bool root_5(const J& c, std::string& r)
{
    auto y = type_name(c["ty"]);
    if(y == "ht.dyn") { r = run<Lib::HTable<std::string, Dyn>>(c); return true; }
    if(y == "set.s8") { r = run<std::set<std::string>>(c); return true; }
    return false;
}
