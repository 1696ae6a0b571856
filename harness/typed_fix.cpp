#include "typed.h"
bool field_fix(Ex& x, const J& ty)
{
    auto y = type_name(ty);
    if(y == "arr.i32") { typedef int32_t A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.u8") { typedef uint8_t A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.f64") { typedef double A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.s8") { typedef std::string A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.s16") { typedef std::u16string A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.byt") { typedef Bytes A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.dyn") { typedef Dyn A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.vec.i32") { typedef std::vector<int32_t> A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.vec.dyn") { typedef std::vector<Dyn> A[3]; exch<A>(x, ty); return true; }
    if(y == "arr.map.s8.dyn") { typedef std::map<std::string, Dyn> A[3]; exch<A>(x, ty); return true; }
    if(y == "arr1.i32") { typedef int32_t A[1]; exch<A>(x, ty); return true; }
    if(y == "arr.arr.i32") { typedef int32_t A[3][3]; exch<A>(x, ty); return true; }
    if(y == "pair.i32") { exch<std::pair<int32_t, std::string>>(x, ty); return true; }
    if(y == "pair.u8") { exch<std::pair<uint8_t, std::string>>(x, ty); return true; }
    if(y == "pair.f64") { exch<std::pair<double, std::string>>(x, ty); return true; }
    if(y == "pair.s8") { exch<std::pair<std::string, std::string>>(x, ty); return true; }
    if(y == "pair.s16") { exch<std::pair<std::u16string, std::string>>(x, ty); return true; }
    if(y == "pair.byt") { exch<std::pair<Bytes, std::string>>(x, ty); return true; }
    if(y == "pair.dyn") { exch<std::pair<Dyn, std::string>>(x, ty); return true; }
    if(y == "pair.vec.i32") { exch<std::pair<std::vector<int32_t>, std::string>>(x, ty); return true; }
    if(y == "pair.vec.dyn") { exch<std::pair<std::vector<Dyn>, std::string>>(x, ty); return true; }
    if(y == "tup.i32") { exch<std::tuple<std::string, int32_t, int64_t>>(x, ty); return true; }
    if(y == "tup.u8") { exch<std::tuple<std::string, uint8_t, int64_t>>(x, ty); return true; }
    if(y == "tup.f64") { exch<std::tuple<std::string, double, int64_t>>(x, ty); return true; }
    if(y == "tup.s8") { exch<std::tuple<std::string, std::string, int64_t>>(x, ty); return true; }
    if(y == "tup.s16") { exch<std::tuple<std::string, std::u16string, int64_t>>(x, ty); return true; }
    if(y == "tup.byt") { exch<std::tuple<std::string, Bytes, int64_t>>(x, ty); return true; }
    if(y == "tup.dyn") { exch<std::tuple<std::string, Dyn, int64_t>>(x, ty); return true; }
    if(y == "tup.vec.i32") { exch<std::tuple<std::string, std::vector<int32_t>, int64_t>>(x, ty); return true; }
    if(y == "tup.vec.dyn") { exch<std::tuple<std::string, std::vector<Dyn>, int64_t>>(x, ty); return true; }
    return false;
}
