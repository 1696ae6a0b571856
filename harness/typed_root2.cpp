#include "typed_root.h"
typedef int32_t IntArray[3];
typedef Dyn DynArray[3];
bool root_2(const J& c, std::string& r)
{
    auto y = type_name(c["ty"]);
    if(y == "vec.s8") { r = run<std::vector<std::string>>(c); return true; }
    if(y == "vec.dyn") { r = run<std::vector<Dyn>>(c); return true; }
    if(y == "list.s16") { r = run<std::list<std::u16string>>(c); return true; }
    return false;
}
