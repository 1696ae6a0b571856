#include "typed.h"
bool field_ht(Ex& x, const J& ty)
{
    auto y = type_name(ty);
    if(y == "ht.i32") { exch<Lib::HTable<std::string, int32_t>>(x, ty); return true; }
    if(y == "ht.u8") { exch<Lib::HTable<std::string, uint8_t>>(x, ty); return true; }
    if(y == "ht.f64") { exch<Lib::HTable<std::string, double>>(x, ty); return true; }
    if(y == "ht.s8") { exch<Lib::HTable<std::string, std::string>>(x, ty); return true; }
    if(y == "ht.s16") { exch<Lib::HTable<std::string, std::u16string>>(x, ty); return true; }
    if(y == "ht.byt") { exch<Lib::HTable<std::string, Bytes>>(x, ty); return true; }
    if(y == "ht.dyn") { exch<Lib::HTable<std::string, Dyn>>(x, ty); return true; }
    if(y == "ht.vec.i32") { exch<Lib::HTable<std::string, std::vector<int32_t>>>(x, ty); return true; }
    if(y == "ht.vec.dyn") { exch<Lib::HTable<std::string, std::vector<Dyn>>>(x, ty); return true; }
    if(y == "ht.map.s8.dyn") { exch<Lib::HTable<std::string, std::map<std::string, Dyn>>>(x, ty); return true; }
    if(y == "ht.upt.dyn") { exch<Lib::HTable<std::string, std::unique_ptr<Dyn>>>(x, ty); return true; }
    if(y == "ht.upt.i32") { exch<Lib::HTable<std::string, std::unique_ptr<int32_t>>>(x, ty); return true; }
    return false;
}
