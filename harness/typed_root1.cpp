#include "typed_root.h"
typedef int32_t IntArray[3];
typedef Dyn DynArray[3];
bool root_1(const J& c, std::string& r)
{
    auto y = type_name(c["ty"]);
    if(y == "i32") { r = run<int32_t>(c); return true; }
    if(y == "s8") { r = run<std::string>(c); return true; }
    if(y == "f64") { r = run<double>(c); return true; }
    if(y == "vec.i32") { r = run<std::vector<int32_t>>(c); return true; }
    return false;
}
