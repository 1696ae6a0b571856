#include "typed.h"
bool field_seq(Ex& x, const J& ty)
{
    auto y = type_name(ty);
    if(y == "dyn") { exch<Dyn>(x, ty); return true; }
    if(y == "vec.i32") { exch<std::vector<int32_t>>(x, ty); return true; }
    if(y == "vec.u8") { exch<std::vector<uint8_t>>(x, ty); return true; }
    if(y == "vec.f64") { exch<std::vector<double>>(x, ty); return true; }
    if(y == "vec.s8") { exch<std::vector<std::string>>(x, ty); return true; }
    if(y == "vec.s16") { exch<std::vector<std::u16string>>(x, ty); return true; }
    if(y == "vec.byt") { exch<std::vector<Bytes>>(x, ty); return true; }
    if(y == "vec.dyn") { exch<std::vector<Dyn>>(x, ty); return true; }
    if(y == "vec.vec.i32") { exch<std::vector<std::vector<int32_t>>>(x, ty); return true; }
    if(y == "vec.vec.dyn") { exch<std::vector<std::vector<Dyn>>>(x, ty); return true; }
    if(y == "vec.map.s8.dyn") { exch<std::vector<std::map<std::string, Dyn>>>(x, ty); return true; }
    if(y == "vec.upt.dyn") { exch<std::vector<std::unique_ptr<Dyn>>>(x, ty); return true; }
    if(y == "vec.upt.i32") { exch<std::vector<std::unique_ptr<int32_t>>>(x, ty); return true; }
    if(y == "list.i32") { exch<std::list<int32_t>>(x, ty); return true; }
    if(y == "list.u8") { exch<std::list<uint8_t>>(x, ty); return true; }
    if(y == "list.f64") { exch<std::list<double>>(x, ty); return true; }
    if(y == "list.s8") { exch<std::list<std::string>>(x, ty); return true; }
    if(y == "list.s16") { exch<std::list<std::u16string>>(x, ty); return true; }
    if(y == "list.byt") { exch<std::list<Bytes>>(x, ty); return true; }
    if(y == "list.dyn") { exch<std::list<Dyn>>(x, ty); return true; }
    if(y == "list.vec.i32") { exch<std::list<std::vector<int32_t>>>(x, ty); return true; }
    if(y == "list.vec.dyn") { exch<std::list<std::vector<Dyn>>>(x, ty); return true; }
    if(y == "list.map.s8.dyn") { exch<std::list<std::map<std::string, Dyn>>>(x, ty); return true; }
    if(y == "list.upt.dyn") { exch<std::list<std::unique_ptr<Dyn>>>(x, ty); return true; }
    if(y == "list.upt.i32") { exch<std::list<std::unique_ptr<int32_t>>>(x, ty); return true; }
    if(y == "list.bool") { exch<std::list<bool>>(x, ty); return true; }
    return false;
}
