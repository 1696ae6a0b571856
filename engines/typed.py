"""Objects stored and restored: C01, C06, C11, C12, C21, C24."""
import json, math, struct, subprocess
from vlib import gen as G

L = lambda y: {"y": y}
INT = {"i8": (-2 ** 7, 2 ** 7 - 1), "u8": (0, 2 ** 8 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "u16": (0, 2 ** 16 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
       "u32": (0, 2 ** 32 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1)}
FPT = ("f32", "f64", "ld")
NUMT = list(INT) + list(FPT) + ["bool"]
STRT = ("s8", "s16", "s32", "sw")
CHRT = ("c8", "c16", "c32", "cw")
ARRT = ("a8", "a16", "a32")
BINT = {"bin": 1, "byt": 1, "v16": 2, "v32": 4}
LEAFS = NUMT + list(STRT) + list(CHRT) + list(ARRT) + list(BINT)
UNITS = {"c8": 8, "a8": 8, "c16": 16, "a16": 16}
EL9 = ["i32", "u8", "f64", "s8", "s16", "byt", "dyn", "vec.i32", "vec.dyn"]
EL = EL9 + ["map.s8.dyn", "upt.dyn", "upt.i32"]
TYPES = (["vec." + e for e in EL] + ["list." + e for e in EL + ["bool"]] + ["deq." + e for e in ("i32", "s8", "dyn", "vec.dyn")] +
         ["set." + e for e in ("i32", "s8", "f64", "u8", "vec.i32")] + ["mset." + e for e in ("i32", "s8")] +
         ["map.s8." + e for e in EL[:-2]] + ["map.i32.s8", "map.i32.dyn"] + ["umap.u32." + e for e in ("i32", "s8", "dyn", "vec.dyn")] +
         ["umap.s8.i32", "umap.s8.dyn", "mmap.i32.s8", "mmap.i32.dyn"] + ["ht." + e for e in EL] +
         ["upt." + e for e in ("i32", "f64", "s8", "s16", "dyn", "vec.i32", "vec.dyn", "map.s8.dyn", "upt.dyn")] +
         ["ptr." + e for e in ("i32", "f64", "s8", "dyn", "vec.dyn")] +
         ["arr." + e for e in EL9 + ["map.s8.dyn"]] + ["arr1.i32", "arr.arr.i32"] + ["pair." + e for e in EL9] + ["tup." + e for e in EL9] +
         ["dyn", "two", "vec.two", "upt.two", "map.s8.two", "ht.two"])
SPT = ["spt." + e for e in ("i32", "s8", "dyn", "vec.dyn")]
ROOTS = ["dyn", "dyn", "dyn", "two", "i32", "s8", "f64", "vec.i32", "vec.s8", "vec.dyn", "list.s16", "list.two", "map.s8.dyn", "umap.u32.i32",
         "arr.i32", "arr.dyn", "ht.i32", "ht.dyn", "set.s8"]


def typ(r, name, depth, store):
    p = name.split(".")
    def build(i):
        y = p[i]
        if y in ("dyn", "two"):
            return plan(r, y, depth, store)
        if i == len(p) - 1:
            return L(y)
        if y in ("map", "umap", "mmap"):
            return {"y": y, "key": L(p[i + 1]), "e": build(i + 2)}
        t = {"y": y, "e": build(i + 1)}
        if y in ("pair", "tup"):
            t["o"] = L("s8")
        if y == "tup":
            t["p"] = L("i64")
        return t
    return build(0)


def plan(r, y, depth, store, n=None):
    fs, used = [], set()
    twins = G.pair(r) if r.random() < .2 else []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8]) if n is None else n):
        if depth <= 0 or r.random() < .45:
            t = L(r.choice(LEAFS))
        else:
            t = typ(r, r.choice(SPT) if store and r.random() < .06 else r.choice(TYPES), depth - 1, store)
        while True:
            nm = twins.pop() if twins else G.name(r, empty=0, big=.0)
            if nm not in used:
                break
        used.add(nm)
        f = {"n": list(nm), "enc": r.choice([8, 8, 8, 16, 32]), "opt": r.random() < .3, "ty": t}
        if t["y"] in LEAFS and r.random() < .4:
            f["i"] = value(r, t)
        fs.append(f)
    pos = r.random() < .2
    if pos:
        # there are no optional ones by position
        for f in fs:
            f["opt"] = False
    return {"y": y, "pos": pos, "f": fs}


def f32(d):
    try:
        return struct.unpack(">f", struct.pack(">f", d))[0]
    except OverflowError:
        return 1.5


def num(r, t, finite=True):
    if t == "bool":
        return G.s_bool(r.random() < .5)
    if t in FPT:
        d = G.fp(r, finite)
        return G.s_fp(f32(d) if t == "f32" else d)
    lo, hi = INT[t]
    x = r.random()
    if x < .3:
        v = r.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1])
    elif x < .8:
        v = r.choice(G.INTS)
    else:
        v = r.randrange(lo, hi + 1)
    return G.s_int(v if lo <= v <= hi else r.randrange(lo, hi + 1))


def units(b, enc):
    s = b.decode()
    return len(b) if enc == 8 else len(s.encode("utf-16-le")) // 2 if enc == 16 else len(s)


def text_units(r, enc, n):
    """text of n units in the encoding"""
    out = ""
    k = 0
    while k < n:
        c = chr(G.cp(r) or 0x41)
        u = units(c.encode(), enc)
        if c != "\0" and k + u <= n:
            out += c
            k += u
    return out.encode()


def value(r, ty, finite=True, big=0.0):
    y = ty["y"]
    if y in NUMT:
        return num(r, y, finite)
    if y in STRT:
        return G.s_str(G.text_of_size(r, r.choice(G.BIG_LENGTHS), .97) if r.random() < big else G.text(r).encode())
    if y in CHRT:
        return G.s_str(text_units(r, UNITS.get(y, 32), 1))
    if y in ARRT:
        return G.s_str(text_units(r, UNITS.get(y, 32), r.randrange(8)))
    if y in BINT:
        return G.s_bin(r.randbytes(BINT[y] * (r.choice(G.BIG_LENGTHS) // 4 if r.random() < big else r.choice([0, 1, 2, 3, 5, 8, 63, 64, 65, r.randrange(100)]))))
    if y in ("dyn", "two"):
        return {"k": "L", "e": [value(r, f["ty"], finite, big) for f in ty["f"]]}
    if y in ("upt", "spt", "ptr"):
        return {"k": "P", "e": [value(r, ty["e"], finite, big)]}
    if y in ("arr", "arr1"):
        return {"k": "L", "e": [value(r, ty["e"], finite, big) for _ in range(3 if y == "arr" else 1)]}
    if y == "pair":
        return {"k": "L", "e": [value(r, ty["e"], finite), value(r, ty["o"], finite)]}
    if y == "tup":
        return {"k": "L", "e": [value(r, ty["o"]), value(r, ty["e"], finite), value(r, ty["p"])]}
    n = r.choice([0, 1, 2, 3, 3, 5, r.randrange(0, 12)])
    if ty["e"]["y"] in LEAFS and r.random() < .08:
        n = r.choice([15, 16, 17, 31, 33, 64, 130])
    e = []
    for _ in range(n):
        if y in ("map", "umap", "mmap", "ht"):
            x = [value(r, ty["key"]) if y != "ht" else G.s_str(G.name(r)), value(r, ty["e"], finite)]
            if y == "mmap" or all(x[0] != z[0] for z in e):
                e.append(x)
        else:
            x = value(r, ty["e"], finite and y != "set")
            if y == "set" and ty["e"]["y"] == "f64":
                d = struct.unpack(">d", bytes(x["m"]))[0]
                if d == 0 or math.isnan(d) or math.isinf(d):
                    continue
            if y != "set" or x not in e:
                e.append(x)
    return {"k": "M" if y in ("map", "umap", "mmap", "ht") else "L", "e": e}


# ------------------------------------------------- documents that fit a type
def kind(ty):
    if ty["y"] in LEAFS:
        return "v"
    return kind(ty["e"]) if ty["y"] in ("upt", "ptr") else "c"


def num_text(r):
    x = r.random()
    if x < .3:
        t = str(r.choice(G.INTS))
    elif x < .5:
        t = repr(G.fp(r))
    elif x < .7:
        t = G.json_random_num(r)
    elif x < .8:
        t = r.choice(["+1", "-0", "00", "007", "+0", "-00.0", ".5", "5.", "1e5", "1E+5", "-.25", "12e-1", "0.1e1", "18446744073709551616",
                      "-9223372036854775809", "-9223372036854775807", "18446744073709551615", "9223372036854775808", "255.5", "-0.5", "256", "-1", "65536",
                      "3.4028235677973366e38", "3.4028234663852886e38", "1e39", "1e300", "1e308", "1e-320", "1e-400", "true", "false", "True", "null"])
    elif x < .88:
        t = r.choice(["", " ", "-", "+", ".", "e", "1e", "1e+", "--1", "+-1", "-+1", "1x", "x1", "1 2", "1,5", "1.2.3", "1e5.5", "0 x", "1\0", "\0", "a", "tru",
                      "truex", "1_0", "½", "١", "1-", "(1)", "nul", "-true", "1e1e1", "5 -", "..5", "e5", ".e5", "-e5", "_1", "1__0", "#", "$1", "1%"])
    else:
        t = "".join(r.choice("0123456789+-.eE ") for _ in range(r.randrange(1, 12)))
    if r.random() < .15:
        t = r.choice([" ", "\t", "\n ", "  ", "\r\n"]) + t
    if r.random() < .15:
        t += r.choice([" ", "\t", "\n ", "  ", "\r\n", "\v"])
    return t.encode()


def scalar_for(r, y, wild=.3):
    """a scalar that mostly fits"""
    x = r.random()
    if y in NUMT:
        if x > wild:
            return num(r, y)
        return r.choice([lambda: num(r, r.choice(NUMT)), lambda: num(r, r.choice(NUMT), False), lambda: G.s_str(num_text(r)), G.s_null,
                         lambda: G.s_bool(r.random() < .5), lambda: G.scalar(r, False)])()
    if y in STRT:
        return G.s_str(G.text(r)) if x > wild else r.choice([lambda: G.s_int(r.choice(G.INTS)), lambda: G.s_fp(G.fp(r)), G.s_null,
                                                               lambda: G.s_bool(r.random() < .5), lambda: G.s_str(G.text(r))])()
    if y in BINT and x < wild:
        import base64
        return G.s_str(base64.b64encode(r.randbytes(BINT[y] * r.randrange(8))))
    return value(r, L(y))


def misfit(r, y):
    """a scalar that mostly does not fit"""
    c = [lambda: G.scalar(r, False), lambda: G.s_str(num_text(r)), lambda: G.s_bin(r.randbytes(r.randrange(12)) if r.random() < .6 else bytes(r.choice(b"0123abc") for _ in range(r.randrange(12))))]
    if y in NUMT:
        c += [lambda: num(r, r.choice(NUMT), False), lambda: G.s_str(G.text(r))]
    if y in CHRT + ARRT:
        enc = UNITS.get(y, 32)
        c += [lambda: G.s_str(text_units(r, enc, r.choice([0, 2, 7, 8, 9, 10, 20])))] * 4
    if y in BINT:
        c += [lambda: G.s_bin(r.randbytes(BINT[y] * r.randrange(9) + r.randrange(4)))] * 3
        c += [lambda: G.s_str(bytes(r.choice(b"AAbZz+/09=-_ ") for _ in range(r.randrange(13))))] * 3
    if y in ("s16", "s32", "sw", "s8"):
        c += [lambda: G.s_str(r.choice([b"\x80", b"a\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80"]))] * 2
    return r.choice(c)()


class Docs:
    """Documents for types. p: chance that a component does not fit, one: a single misfit at a random place"""
    def __init__(self, r, p=0.0, junk=.4, enc_bad=True):
        self.r, self.p, self.junk = r, p, junk

    def item(self, ty):
        r, y = self.r, ty["y"]
        if r.random() < self.p:
            x = r.random()
            if x < .25:
                return ("v", G.scalar(r)) if kind(ty) == "c" else ("c", G.doc(r, 1, 3))
            if y in LEAFS:
                return "v", misfit(r, y)
            if x < .5 and y not in ("upt", "ptr"):
                return "c", G.doc(r, 2, 4)
        if y in LEAFS:
            return "v", scalar_for(r, y)
        if y in ("upt", "ptr"):
            return ("v", G.s_null()) if y == "ptr" and r.random() < .2 else self.item(ty["e"])
        return "c", self.scope(ty)

    def scope(self, ty):
        r, y = self.r, ty["y"]
        items = []                   # (name, kind, content)
        def add(n, it):
            items.append((list(n), *it))
        fixed = y in ("dyn", "two", "pair", "tup")
        if y in ("dyn", "two"):
            pos = ty["pos"]
            for f in ty["f"]:
                if r.random() < (self.p * .7 if not f["opt"] else .4):
                    if pos:
                        break        # the ones behind are gone, too
                    continue
                add(f["n"] if not pos else [], self.item(f["ty"]))
        elif y == "pair":
            for n, t in (("first", ty["e"]), ("second", ty["o"])):
                if r.random() >= self.p * .3:
                    add(n.encode(), self.item(t))
        elif y == "tup":
            for t in ("o", "e", "p"):
                if r.random() >= self.p * .1:
                    add([], self.item(ty[t]))
        elif y in ("map", "umap", "mmap"):
            for _ in range(r.choice([0, 1, 2, 3, 5])):
                e = []
                if r.random() >= self.p * .2:
                    e.append(([107, 101, 121], *self.item(ty["key"])))
                if r.random() >= self.p * .2:
                    e.append(([118, 97, 108, 117, 101], *self.item(ty["e"])))
                if r.random() < self.junk:
                    e += self.unknown(2)
                    r.shuffle(e)
                items.append(([], "c", mk("o" if r.random() < .9 else "a", e)))
        else:
            n = {"arr": 3, "arr1": 1}.get(y, r.choice([0, 1, 2, 3, 5]))
            if y in ("arr", "arr1") and r.random() < self.p:
                n = r.choice([0, 1, 2, 3, 4, 5])
            for _ in range(n):
                add(G.name(r) if y == "ht" else [], self.item(ty["e"]))
        named = y in ("pair", "ht") or (y in ("dyn", "two") and not ty["pos"])
        if r.random() < self.junk:
            if y in ("dyn", "two", "pair") and named:
                for x in self.unknown(4):
                    items.insert(r.randrange(len(items) + 1), x)
                for n, k, x in list(items):
                    if bytes(n) in G.TWIN and r.random() < .4 and not any(list(G.TWIN[bytes(n)]) == list(f["n"]) for f in ty.get("f", [])):
                        # another name with the same hash
                        items.insert(r.randrange(len(items) + 1), (list(G.TWIN[bytes(n)]), *r.choice([("v", G.scalar(r)), ("c", G.doc(r, 1, 3))])))
                if items and r.random() < .5:
                    # names again, with something else in the same or the other kind
                    n = r.choice(items)[0]
                    items.append((n, *r.choice([("v", G.scalar(r)), ("c", G.doc(r, 1, 3)), self.any_field(ty)])))
                if r.random() < .7:
                    r.shuffle(items)
            elif fixed:
                # behind the ones asked for
                items += self.unknown(3)
            elif y in ("map", "umap", "mmap") or kind(ty["e"]) == "c":
                # the other kind is ignored
                for _ in range(r.randrange(3)):
                    items.insert(r.randrange(len(items) + 1), (list(G.name(r)), "v", G.scalar(r)))
            else:
                for _ in range(r.randrange(3)):
                    items.insert(r.randrange(len(items) + 1), (list(G.name(r)), "c", G.doc(r, 1, 3)))
        t = "o" if named else r.choice("oa")
        if r.random() < self.p * .2:
            t = "a" if t == "o" else "o"
        return mk(t, items)

    def any_field(self, ty):
        return self.item(self.r.choice(ty["f"])["ty"]) if ty["y"] in ("dyn", "two") and ty["f"] else ("v", G.s_int(7))

    def unknown(self, n):
        r = self.r
        out = []
        for _ in range(r.randrange(n + 1)):
            nm = list(G.name(r))
            if r.random() < .5:
                out.append((nm, "v", G.scalar(r, big=.02)))
            else:
                out.append((nm, "c", G.doc(r, r.choice([0, 1, 3]), 4)))
        return out


def mk(t, items):
    nm = (lambda n: n) if t == "o" else (lambda n: [])
    # remembers the order of values and nodes for the encoder
    d = {"t": t, "v": [{"n": nm(n), "s": x} for n, k, x in items if k == "v"], "c": [{"n": nm(n), "d": x} for n, k, x in items if k == "c"]}
    return d


def hints(d, extra=()):
    out, seen = [], set()
    def one(m):
        t = bytes(m)
        if t in seen or len(t) > 120:
            return
        seen.add(t)
        try:
            f = float(t.decode().strip(" \t\n\r\v\f"))
        except ValueError:
            return
        if math.isnan(f):
            return
        out.append({"t": list(m), "f": G.fbytes(f)})
    def walk(d):
        for v in d["v"]:
            if v["s"]["k"] in "sx":
                one(v["s"]["m"])
        for c in d["c"]:
            walk(c["d"])
    walk(d)
    for m in extra:
        one(m)
    return out


def restore_case(r, ty, d, fmt):
    jd = d
    if fmt == "json":
        import base64
        def conv(d):
            return {"t": d["t"], "v": [{"n": v["n"], "s": G.s_str(base64.b64encode(bytes(v["s"]["m"]))) if v["s"]["k"] == "x" else v["s"]} for v in d["v"]],
                    "c": [{"n": c["n"], "d": conv(c["d"])} for c in d["c"]]}
        jd = conv(d)
    b = G.ENC[fmt](d, r) if fmt != "json" else G.enc_json(d, r, rnd_num=0)
    return {"op": "restore", "ty": ty, "fmt": fmt, "b": b, "hints": hints(jd), "val": 0, "styles": []}


def textual(d):
    """valid UTF-8 only, finite numbers"""
    for v in d["v"]:
        s = v["s"]
        if s["k"] == "s":
            try:
                bytes(s["m"]).decode()
            except UnicodeDecodeError:
                return False
        if s["k"] == "f" and not math.isfinite(struct.unpack(">d", bytes(s["m"]))[0]):
            return False
    return all(textual(c["d"]) for c in d["c"])


def fmt_for(r, d, i):
    fmt = G.FMTS[i % 3]
    return fmt if fmt != "json" or textual(d) else G.FMTS[i % 2]


def root_doc(g, ty):
    if kind(ty) == "c":
        return g.scope(ty)
    k, x = g.item(ty)
    return mk("o", [([118], k, x)] if g.r.random() < .95 else [])


def parts(v):
    e = v.get("e", ())
    return 1 + sum(parts(x) if isinstance(x, dict) else parts(x[0]) + parts(x[1]) for x in e)


def store_case(r, ty, finite=True, big=0.0, styles=None):
    st = styles or ["srl", "msg", "json", "jsonp"]
    while True:
        v = value(r, ty, finite, big)
        if parts(v) <= 600:
            break
    return {"op": "store", "ty": ty, "val": v, "styles": st if finite else st[:2], "via": r.randrange(16), "hints": [], "fmt": "", "b": []}


def models(c, r, n):
    m = c.model("MC_Consume.tla", "MC_Consume%s.cfg" % ("_deep" if c.thorough else ""))
    s = m["scripts"]
    s = s if len(s) <= n else r.sample(s, n)
    out = []
    ids = {"a": [97], "b": [98], "": []}
    for i, x in enumerate(s):
        cnt = [0]
        if r.random() < .25:
            ids["a"], ids["b"] = map(list, G.pair(r))
        else:
            ids["a"], ids["b"] = [97], [98]
        def doc(items):
            it = []
            for e in items:
                cnt[0] += 1
                it.append((ids[e["n"]], "v", G.s_int(cnt[0])) if e["k"] == "v" else (ids[e["n"]], "c", doc(e["sub"])))
            return it
        def typ_(reqs):
            return {"y": r.choice(["dyn", "two"]), "pos": any(q["n"] == "" for q in reqs), "f": [
                {"n": ids[q["n"]], "enc": r.choice([8, 16, 32]), "opt": q["opt"], "i": G.s_int(99),
                 "ty": L("u8")} if q["k"] == "v" else
                {"n": ids[q["n"]], "enc": 8, "opt": q["opt"], "ty": typ_(q["sub"])} for q in reqs]}
        fmt = G.FMTS[i % 3]
        items = doc(x["doc"])
        out.append((x, typ_(x["plan"]), items, fmt))
    return [{"op": "restore", "ty": fix_init(t), "fmt": f, "b": ordered(f, items, r), "hints": [], "val": 0, "styles": []} for _, t, items, f in out]


def fix_init(t):
    for f in t["f"]:
        if f["ty"]["y"] != "u8":
            f.pop("i", None)
            fix_init(f["ty"])
    return t


class Ordered(list):
    """values and nodes of a scope in exactly this order"""


def ordered(fmt, items, r):
    def conv(items):
        its = [(n, k, conv(x) if k == "c" else x) for n, k, x in items]
        d = mk("o", its)
        d["order"] = [k for _, k, _ in its]
        return d
    return G.ENC[fmt](conv(items), r)


# -------------------------------------------------------------------- checks
def roundtrip(c):
    exe = c.build(["typed"])["typed"]
    c.model("MC_Typed.tla", "MC_Typed%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("store")
    cases = []
    for i in range(c.n(260, 8000)):
        cases.append(store_case(r, typ(r, r.choice(ROOTS), r.choice([1, 2, 2, 3]), True), r.random() < .8))
    # every type of field by itself, and leafs with many values
    for t in LEAFS + TYPES + SPT:
        for _ in range(c.n(1, 20)):
            ty = {"y": r.choice(["dyn", "two"]), "pos": r.random() < .3, "f": [
                {"n": list(G.name(r, empty=0)), "enc": 8, "opt": False, "ty": typ(r, t, 1, True)}]}
            cases.append(store_case(r, ty))
    for t in LEAFS:
        for _ in range(c.n(2, 20)):
            ty = {"y": "dyn", "pos": False, "f": [{"n": list(b"f%d" % i), "enc": 8, "opt": False, "ty": L(t)} for i in range(20)]}
            cases.append(store_case(r, ty))
    for t in ("i32", "s8", "f64"):
        cases += [store_case(r, L(t)) for _ in range(c.n(20, 500))]
    for _ in range(c.n(16, 300)):
        cases.append(store_case(r, typ(r, r.choice(["dyn", "vec.s8", "list.s16", "set.s8"]), 2, False), True, .3))
    r.shuffle(cases)
    c.conform(exe, "Typed.tla", cases, "objects stored and restored")


def by_hand(r, depth, n, finite, lists):
    """a document, with many scopes that can be inserted in several ways"""
    def scope(t, depth, n):
        d = {"t": t, "v": [], "c": []}
        nm = lambda: list(G.name(r)) if t == "o" else []
        for _ in range(r.randrange(n + 1)):
            x = r.random()
            if depth < 1 or x < .5:
                d["v"].append({"n": nm(), "s": G.scalar(r, finite, .01)})
            elif x < .5 + lists:
                f = r.choice([lambda: G.s_int(r.choice([0, 1, -1, 127, 128, 300, -2 ** 63, 2 ** 63 - 1])), lambda: G.s_str(G.text(r)), lambda: G.s_bool(r.randrange(2))])
                d["c"].append({"n": nm(), "d": {"t": "a", "v": [{"n": [], "s": f()} for _ in range(r.randrange(5))], "c": []}})
            else:
                d["c"].append({"n": nm(), "d": scope(r.choice("ooa"), depth - 1, n)})
        return d
    return scope("o", depth, n)


def views(c):
    bins = c.build(["typed", "wire"])
    exe, wire = bins["typed"], bins["wire"]
    c.model("MC_Typed.tla", "MC_Typed%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("views")
    cases = []
    for i in range(c.n(320, 8000)):
        t = r.choice([x for x in ROOTS if x not in ("i32", "s8", "f64")])
        cases.append(store_case(r, typ(r, t, r.choice([1, 2, 2, 3]), True), r.random() < .8))
    for t in LEAFS + TYPES + SPT:
        for _ in range(c.n(1, 20)):
            ty = {"y": r.choice(["dyn", "two"]), "pos": r.random() < .3, "f": [
                {"n": list(G.name(r, empty=0)), "enc": r.choice([8, 16, 32]), "opt": False, "ty": typ(r, t, 1, False)}]}
            cases.append(store_case(r, ty))
    c.conform(exe, "Typed.tla", cases, "objects stored in every way")
    # documents made by the methods of a class, item by item, by all means there are
    r = c.rng("hand")
    cases = []
    for i in range(c.n(400, 10000)):
        style = r.choice(["srl", "msg", "json", "jsonp"])
        made = r.choice(["store", "store", "store", "pack", "load", "hand", "node"])
        d = by_hand(r, r.choice([1, 2, 2, 3]), 3 if made == "pack" else r.choice([2, 5, 9]), style.startswith("json"), r.choice([.1, .4]))
        if made in ("hand", "node"):
            d["t"] = r.choice("oa")
        cases.append({"op": "w", "fmt": G.fmt_of(style), "style": style, "via": r.choice(["buf", "stream"]), "doc": d, "made": made, "mix": r.randrange(2 ** 31)})
    c.conform(wire, "Wire.tla", cases, "documents made by hand")


def direct(c):
    exe = c.build(["typed"])["typed"]
    r = c.rng("model")
    c.conform(exe, "Typed.tla", models(c, r, c.n(3000, 60000)), "documents and targets enumerated by the model")
    r = c.rng("direct")
    cases = []
    for i in range(c.n(1500, 40000)):
        t = typ(r, r.choice(ROOTS), r.choice([1, 1, 2, 3]), False)
        g = Docs(r, r.choice([0, 0, 0, .03, .1]), r.choice([.2, .6, .9]))
        d = root_doc(g, t)
        cases.append(restore_case(r, t, d, fmt_for(r, d, i)))
    c.conform(exe, "Typed.tla", cases, "restored directly and from documents")


def misfits(c):
    exe = c.build(["typed"])["typed"]
    c.model("MC_Typed.tla", "MC_Typed%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("misfit")
    cases = []
    for i in range(c.n(900, 30000)):
        t = typ(r, r.choice(ROOTS), r.choice([1, 1, 2]), False)
        g = Docs(r, r.choice([.03, .1, .3]), r.choice([0, .2]))
        d = root_doc(g, t)
        cases.append(restore_case(r, t, d, fmt_for(r, d, i)))
    # every type by itself
    for t in LEAFS + TYPES:
        for i in range(c.n(9 if t in LEAFS else 5, 150)):
            pos = r.random() < .3
            ty = {"y": r.choice(["dyn", "two"]), "pos": pos, "f": [{"n": [120], "enc": 8, "opt": not pos and r.random() < .2, "ty": typ(r, t, 1, False)}]}
            g = Docs(r, r.choice([.1, .4, 1]), 0)
            d = mk("o", [([120], *g.item(ty["f"][0]["ty"]))])
            cases.append(restore_case(r, ty, d, fmt_for(r, d, i)))
    c.conform(exe, "Typed.tla", cases, "documents that do not fit")
    # every simple type with every kind of value, in every format
    s = [G.s_null(), G.s_bool(0), G.s_bool(1), G.s_int(0), G.s_int(104), G.s_int(-3), G.s_fp(1.5)]
    s += [f(t) for t in (b"", b"h", b"ab", b"12", b"1.5", b"1234567", b"12345678", b"aGVsbG8=", b"\xc3\xa4") for f in (G.s_str, G.s_bin)]
    cases = [one(t, x, r, fmt) for t in LEAFS for x in s for fmt in G.FMTS if fmt != "json" or textual(mk("o", [([], "v", x)]))]
    c.conform(exe, "Typed.tla", cases if c.thorough else r.sample(cases, 900), "every simple type and kind of value")


def one(t, s, r, fmt):
    ty = {"y": "dyn", "pos": False, "f": [{"n": [120], "enc": 8, "opt": False, "ty": L(t)}]}
    return restore_case(r, ty, mk("o", [([120], "v", s)]), fmt)


def numeric(c):
    exe = c.build(["typed"])["typed"]
    c.model("MC_Typed.tla", "MC_Typed%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("numeric")
    vals = [G.s_int(v) for v in G.INTS] + [G.s_fp(s * d) for d in G.FPS for s in (1, -1)]
    edge = []
    for lo, hi in INT.values():
        for v in (lo, hi):
            for d in (-1.0, -.5, 0.0, .5, 1.0):
                edge.append(float(v) + d)
            edge += [math.nextafter(float(v), math.inf), math.nextafter(float(v), -math.inf)]
    vals += [G.s_fp(d) for d in sorted(set(edge))] + [G.s_fp(x) for x in (math.inf, -math.inf, math.nan)]
    vals += [G.s_null(), G.s_bool(0), G.s_bool(1), G.s_bin(b""), G.s_bin(b"12")]
    cases = []
    for s in vals:
        for i, t in enumerate(NUMT):
            fmts = [f for f in G.FMTS if f != "json" or textual(mk("o", [([], "v", s)]))]
            for fmt in (fmts if c.thorough else [r.choice(fmts)]):
                cases.append(one(t, s, r, fmt))
    for i in range(c.n(1500, 60000)):
        t = r.choice(NUMT)
        x = r.random()
        s = num(r, r.choice(NUMT), False) if x < .4 else G.s_str(num_text(r)) if x < .8 else G.s_fp(r.uniform(-2, 2) * 2.0 ** r.choice([7, 8, 15, 16, 31, 32, 63, 64]))
        fmt = r.choice(G.FMTS)
        if fmt == "json" and not textual(mk("o", [([], "v", s)])):
            fmt = "msg"
        cases.append(one(t, s, r, fmt))
    c.conform(exe, "Typed.tla", cases, "numbers read as every numeric type")


def number_text(c):
    exes = c.build(["typed", "wire"])
    r = c.rng("text")
    cases = []
    for i in range(c.n(1800, 60000)):
        fmt = G.FMTS[i % 3]
        if i % 2:
            cases.append(one(r.choice(["f64", "i64", "u64", "f32", "i32", "f64", "ld", "u8"]), G.s_str(num_text(r)), r, fmt))
        else:
            cases.append(one(r.choice(STRT), num(r, r.choice(["f64", "f64", "f32", "i64", "u64"])), r, fmt))
    c.conform(exes["typed"], "Typed.tla", cases, "numbers restored from and to text")
    # written as JSON and read
    r = c.rng("json")
    cases = []
    for i in range(c.n(150, 5000)):
        d = {"t": "a", "v": [{"n": [], "s": num(r, r.choice(["f64", "f64", "f32", "i64", "u64"]))} for _ in range(r.choice([1, 10, 30]))], "c": []}
        cases.append({"op": "w", "fmt": "json", "style": ("json", "jsonp")[i % 2], "via": ("buf", "stream")[i // 2 % 2], "doc": d})
    for i in range(c.n(300, 10000)):
        t = "[%s]" % ",".join(G.json_random_num(r) if r.random() < .7 else G.json_num(num(r, r.choice(["f64", "i64", "u64"])), r) for _ in range(r.choice([1, 5, 20])))
        cases.append({"op": "r", "fmt": "json", "via": ("buf", "stream")[i % 2], "b": list(t.encode()), "wf": True})
    c.conform(exes["wire"], "Wire.tla", cases, "JSON numbers")
    # numbers out of millions that look suspicious: the specification decides
    r = c.rng("hunt")
    hunt = c.build(["hunt"], "plain")["hunt"]
    n = c.n(2500000, 100000000)
    p = subprocess.run([hunt, str(n), str(c.seed)], stdout=subprocess.PIPE, text=True, timeout=600)
    if p.returncode:
        raise RuntimeError("hunt: exit %d" % p.returncode)
    x = json.loads(p.stdout)
    nums = [G.s_fp(struct.unpack(">d", bytes.fromhex(h))[0]) for h in x["0"]] + [G.s_int(int(t)) for t in x["2"]]
    c.log("%d numbers and texts tried, %d of them suspicious" % (14 * n, len(nums) + len(x["1"])))
    cases = [one(r.choice(STRT), s, r, fmt) for s in nums for fmt in G.FMTS if fmt != "json"]
    cases += [one(t, G.s_str(b.encode()), r, fmt) for b in x["1"] for t in ("f64", "i64", "u64") for fmt in G.FMTS]
    if cases:
        c.conform(exes["typed"], "Typed.tla", cases, "suspicious numbers to and from text")
        cases = [{"op": "w", "fmt": "json", "style": "json", "via": "buf", "doc": {"t": "a", "v": [{"n": [], "s": s}], "c": []}} for s in nums]
        cases += [{"op": "r", "fmt": "json", "via": "buf", "b": list(("[%s]" % t).encode()), "wf": True} for t in x["1"]]
        c.conform(exes["wire"], "Wire.tla", cases, "suspicious JSON numbers")


REGISTRY = {"C01": roundtrip, "C06": direct, "C11": numeric, "C12": number_text, "C21": misfits, "C24": views}
_B = "random types (nesting up to 3), values and documents; type combinations limited to those instantiated in the driver"
NOTES = {
    "C01": ("objects of types drawn from the type model (Types.tla) are stored and restored by the code in every way, each result is a transition of "
            "Typed.tla and has to equal the object", _B),
    "C06": ("MC_Consume enumerates documents and targets (lazy consumption of a source against lookup in the whole document), which are replayed; "
            "random documents with shuffled, unknown, repeated and missing fields beyond; the four ways of restoring have to agree with Types.tla and each other", _B),
    "C11": ("numbers of every representation are restored into every numeric type by the code, outcomes are validated against the exact arithmetic of Types.tla",
            "boundary values of all types exhaustively paired with all targets, random numbers and texts beyond"),
    "C12": ("numbers are written as text and texts read as numbers by the code, validated with exact decimal arithmetic (Num.tla)",
            "random and boundary numbers and texts; the nearest double of a text is proposed by the generator and checked by the specification; of 35 million further numbers and texts (thorough: 1.4 billion) "
            "those which a search with the C library finds suspicious are put before the specification"),
    "C21": ("documents with misfits at random places are restored by the code in four ways; Types.tla says which have to be rejected", _B),
    "C24": ("objects are loaded, inserted, stored in every format; the documents are compared with the one Types.tla prescribes, and read back "
            "by all kinds of access", _B),
}
