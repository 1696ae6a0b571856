#include "typed.h"
bool field_leaf(Ex& x, const J& ty)
{
    auto& y = ty["y"].s;
    #define L(n, t) if(y == n) { exch<t>(x, ty); return true; }
    L("i8", int8_t) L("u8", uint8_t) L("i16", int16_t) L("u16", uint16_t) L("i32", int32_t) L("u32", uint32_t) L("i64", int64_t) L("u64", uint64_t)
    L("f32", float) L("f64", double) L("ld", long double) L("bool", bool)
    L("s8", std::string) L("s16", std::u16string) L("s32", std::u32string) L("sw", std::wstring)
    L("c8", char) L("c16", char16_t) L("c32", char32_t) L("cw", wchar_t)
    L("a8", char[8]) L("a16", char16_t[8]) L("a32", char32_t[8])
    L("byt", Bytes)
    #undef L
    if(y == "bin") { exch_bin<uint8_t>(x, ty); return true; }
    if(y == "v16") { exch_bin<uint16_t>(x, ty); return true; }
    if(y == "v32") { exch_bin<uint32_t>(x, ty); return true; }
    return false;
}
