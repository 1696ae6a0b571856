#include "typed_root.h"
typedef int32_t IntArray[3];
typedef Dyn DynArray[3];
bool root_0(const J& c, std::string& r)
{
    auto y = type_name(c["ty"]);
    if(y == "dyn") { r = run<Dyn>(c); return true; }
    if(y == "two") { r = run<Two>(c); return true; }
    return false;
}
