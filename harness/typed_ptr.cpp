#include "typed.h"
bool field_ptr(Ex& x, const J& ty)
{
    auto y = type_name(ty);
    if(y == "upt.i32") { exch<std::unique_ptr<int32_t>>(x, ty); return true; }
    if(y == "upt.f64") { exch<std::unique_ptr<double>>(x, ty); return true; }
    if(y == "upt.s8") { exch<std::unique_ptr<std::string>>(x, ty); return true; }
    if(y == "upt.s16") { exch<std::unique_ptr<std::u16string>>(x, ty); return true; }
    if(y == "upt.dyn") { exch<std::unique_ptr<Dyn>>(x, ty); return true; }
    if(y == "upt.vec.i32") { exch<std::unique_ptr<std::vector<int32_t>>>(x, ty); return true; }
    if(y == "upt.vec.dyn") { exch<std::unique_ptr<std::vector<Dyn>>>(x, ty); return true; }
    if(y == "upt.map.s8.dyn") { exch<std::unique_ptr<std::map<std::string, Dyn>>>(x, ty); return true; }
    if(y == "upt.upt.dyn") { exch<std::unique_ptr<std::unique_ptr<Dyn>>>(x, ty); return true; }
    if(y == "ptr.i32") { exch<int32_t*>(x, ty); return true; }
    if(y == "ptr.f64") { exch<double*>(x, ty); return true; }
    if(y == "ptr.s8") { exch<std::string*>(x, ty); return true; }
    if(y == "ptr.dyn") { exch<Dyn*>(x, ty); return true; }
    if(y == "ptr.vec.dyn") { exch<std::vector<Dyn>*>(x, ty); return true; }
    if(y == "spt.i32") { exch<std::shared_ptr<int32_t>>(x, ty); return true; }
    if(y == "spt.s8") { exch<std::shared_ptr<std::string>>(x, ty); return true; }
    if(y == "spt.dyn") { exch<std::shared_ptr<Dyn>>(x, ty); return true; }
    if(y == "spt.vec.dyn") { exch<std::shared_ptr<std::vector<Dyn>>>(x, ty); return true; }
    return false;
}
