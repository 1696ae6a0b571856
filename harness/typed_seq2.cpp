#include "typed.h"
bool field_seq2(Ex& x, const J& ty)
{
    auto y = type_name(ty);
    if(y == "deq.i32") { exch<std::deque<int32_t>>(x, ty); return true; }
    if(y == "deq.s8") { exch<std::deque<std::string>>(x, ty); return true; }
    if(y == "deq.dyn") { exch<std::deque<Dyn>>(x, ty); return true; }
    if(y == "deq.vec.dyn") { exch<std::deque<std::vector<Dyn>>>(x, ty); return true; }
    if(y == "set.i32") { exch<std::set<int32_t>>(x, ty); return true; }
    if(y == "set.s8") { exch<std::set<std::string>>(x, ty); return true; }
    if(y == "set.f64") { exch<std::set<double>>(x, ty); return true; }
    if(y == "set.u8") { exch<std::set<uint8_t>>(x, ty); return true; }
    if(y == "set.vec.i32") { exch<std::set<std::vector<int32_t>>>(x, ty); return true; }
    if(y == "mset.i32") { exch<std::multiset<int32_t>>(x, ty); return true; }
    if(y == "mset.s8") { exch<std::multiset<std::string>>(x, ty); return true; }
    return false;
}
