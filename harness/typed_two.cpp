#include "typed.h"
bool field_two(Ex& x, const J& ty)
{
    auto y = type_name(ty);
    if(y == "two") { exch<Two>(x, ty); return true; }
    if(y == "vec.two") { exch<std::vector<Two>>(x, ty); return true; }
    if(y == "upt.two") { exch<std::unique_ptr<Two>>(x, ty); return true; }
    if(y == "map.s8.two") { exch<std::map<std::string, Two>>(x, ty); return true; }
    if(y == "ht.two") { exch<Lib::HTable<std::string, Two>>(x, ty); return true; }
    return false;
}
