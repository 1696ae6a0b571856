"""Objects of registered classes behind pointers to their bases: C14."""
import base64
from vlib import gen as G

IDS = {"A": b"A", "D": b"AA", "B": b"a class whose name is longer than a machine word, longer than a short string, and longer than what a reader fetches at once........",
       "C": b"C\"\\/\xc3\xa9\n", "E": b"virtually E", "F": b"7mohtcOFVz", "G": b"c1E51sSEyx", "T": b"T", "N": b"5", "Z": b"Z"}
FIELDS = {"A": [("v", "i32"), ("s", "s8")], "D": [("v", "i32"), ("s", "s8"), ("more", "i64")], "B": [("kids", "kids"), ("v", "i64")], "C": [("v", "i64")], "F": [("v", "i64")],
          "G": [("v", "i64")], "Z": [("v", "i64")], "E": [("s", "s8")], "T": [("v", "i32")], "N": []}
BASE = {"Base": ["A", "D", "B", "C", "E", "F", "G", "T", "N"], "A": ["A", "D"], "Other": ["Z"]}
SLOTS = [("raw", "one", "Base"), ("uni", "one", "Base"), ("sha", "sh", "Base"), ("ra", "one", "A"), ("ua", "one", "A"), ("sa", "sh", "A"), ("oth", "one", "Other"), ("soth", "sh", "Other"),
         ("vec", "all", "Base"), ("vsh", "shs", "Base"), ("vra", "all", "Base"), ("map", "map", "Base")]
TYPES = [{"id": list(i), "c": c} for c, i in IDS.items()]
STYLES = ["srl", "msg", "json", "jsonp"]
TYPE_ID, KEY, VALUE = list(b"srl_type_id"), list(b"srl_shared_key"), list(b"srl_shared_value")


def txt(r):
    return G.s_str(G.text(r)) if r.random() < .995 else G.s_str(G.text_of_size(r, r.choice(G.BIG_LENGTHS), .97))


def leaf(r, y):
    if y == "s8":
        return txt(r)
    h = 31 if y == "i32" else 63
    return G.s_int(r.choice([r.randrange(100), -2 ** h, 2 ** h - 1, r.randrange(-2 ** h, 2 ** h)]))


def obj(r, b, depth=2, thrower=0.):
    while True:
        c = r.choice(BASE[b])
        if c != "B" or depth > 0:
            break
    f = []
    for n, y in FIELDS[c]:
        f.append({"k": "L", "e": [obj(r, "Base", depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]} if y == "kids" else leaf(r, y))
    if c == "T" and f[0] == G.s_int(13):
        f[0] = G.s_int(14)
    return {"c": c, "f": f}


def slots(r, p, only_pointers=False):
    out = []
    for n, w, b in SLOTS:
        if w in ("one", "sh"):
            out.append([obj(r, b)] if r.random() < p else [])
        else:
            out.append([obj(r, b) for _ in range(r.choice([0, 1, 2, 5]))] if not only_pointers and r.random() < p else [])
    return out


def ctx(r):
    return {"style": r.choice(STYLES), "path": r.choice(["restore", "unpack", "load"]), "via": r.choice(["buf", "stream", "drip"])}


def round_(r, p=None):
    s = slots(r, r.choice([.2, .5, 1.]) if p is None else p)
    for k in (0, 1, 3, 4, 6):
        if not s[k]:
            s[k] = [obj(r, SLOTS[k][2])]
    return {"k": "round", "slots": s, "how": r.choice(["store", "stream", "load", "pack"]), **ctx(r)}


def order(r, d):
    seq = ["v"] * len(d["v"]) + ["c"] * len(d["c"])
    r.shuffle(seq)
    d["order"] = seq
    return d


def other_id(r, b):
    """an identifier that names no class derived from b, or none at all"""
    i = r.choice(list(IDS.values()))
    k = r.randrange(9)
    if k == 0: return None
    if k == 1: return G.s_str(i[:-1])
    if k == 2: return G.s_str(i + b"\0")
    if k == 3: return G.s_str(i.swapcase())
    if k == 4: return G.s_str(i + r.choice([b" ", b"A", b"x"]))
    if k == 5: return r.choice([G.s_bool(True), G.s_null(), G.s_int(6)])
    if k == 6: return G.s_str(b"")
    if k == 7: return G.s_str(G.text(r))
    return G.s_str(IDS["Z" if b != "Other" else r.choice(["A", "B"])])


def scope(r, o, b, bad, extra=.3):
    """the scope of an object, in any order; bad: probability of something wrong with it"""
    d = {"t": "o", "v": [], "c": []}
    fs = list(FIELDS[o["c"]])
    wrong = r.random() < bad
    where = r.randrange(-1, len(fs)) if wrong else None
    i = G.s_str(IDS[o["c"]])
    if where == -1:
        i = other_id(r, b)
    elif o["c"] == "N" and r.random() < .5:
        i = G.s_int(5)
    if i is not None:
        d["v"].append({"n": TYPE_ID, "s": i})
    for k, (n, y) in enumerate(fs):
        n = list(n.encode())
        if y == "kids":
            kids = {"t": "a", "v": [], "c": [{"n": [], "d": scope(r, x, "Base", bad / 4)} for x in o["f"][k]["e"]]}
            if where == k:
                if r.random() < .5:
                    continue
                kids["c"].insert(r.randrange(len(kids["c"]) + 1), {"n": [], "d": order(r, {"t": "o", "v": [{"n": TYPE_ID, "s": G.s_str(b"nothing")}], "c": []})})
            d["c"].append({"n": n, "d": kids})
        else:
            s = o["f"][k]
            if where == k:
                if o["c"] == "T":
                    s = G.s_int(13)
                elif r.random() < .4:
                    continue
                else:
                    s = G.s_bin(b"ab") if y == "s8" else r.choice([G.s_str(b"many"), G.s_int(2 ** 64 - 1)])
            d["v"].append({"n": n, "s": s})
    while r.random() < extra:
        n = G.name(r, empty=0)
        if n in (b"v", b"s", b"more", b"kids", b"srl_type_id"):
            continue
        if r.random() < .6:
            d["v"].append({"n": list(n), "s": txt(r) if r.random() < .5 else G.s_int(r.randrange(1000))})
        else:
            # others' identifiers mean nothing here
            d["c"].append({"n": list(n), "d": order(r, {"t": "o", "v": [{"n": TYPE_ID, "s": G.s_str(r.choice(list(IDS.values())))}], "c": []})})
    r.shuffle(d["v"])
    r.shuffle(d["c"])
    return order(r, d)


def shared(r, o, b, bad, keys):
    """keys: in use so far, with the class of the object"""
    d = {"t": "o", "v": [], "c": []}
    if keys and r.random() < .4:
        # to an object which is there already, maybe not one of the right kind
        k = r.choice(keys)
        if r.random() < .1:
            k = [k[0] + 1000]
        d["v"].append({"n": KEY, "s": G.s_int(k[0])})
        return d
    k = r.choice([len(keys), r.randrange(200, 1000), 2 ** 63 + len(keys)])
    keys.append([k])
    if r.random() > bad / 6:
        d["v"].append({"n": KEY, "s": G.s_int(k)})
    if r.random() > bad / 6:
        d["c"].append({"n": VALUE, "d": scope(r, o, b, bad)})
    return order(r, d)


def from_(r):
    bad = r.choice([0, 0, .1, .5])
    d = {"t": "o", "v": [], "c": []}
    ks = [k for k in range(len(SLOTS)) if r.random() < r.choice([.2, .5, 1.])]
    r.shuffle(ks)
    keys = []
    for k in sorted(ks):
        n, w, b = SLOTS[k]
        if w == "one":
            c = scope(r, obj(r, b), b, bad)
        elif w == "sh":
            c = shared(r, obj(r, b), b, bad, keys)
        elif w == "all":
            # nobody owns what a container of raw pointers has got up to a failure
            c = {"t": "a", "v": [], "c": [{"n": [], "d": scope(r, obj(r, b), b, bad / 3 if n == "vec" else 0)} for _ in range(r.choice([0, 1, 2, 4]))]}
        elif w == "shs":
            c = {"t": "a", "v": [], "c": [{"n": [], "d": shared(r, obj(r, b), b, bad / 3, keys)} for _ in range(r.choice([0, 1, 2, 4]))]}
        else:
            c = {"t": "a", "v": [], "c": [{"n": [], "d": order(r, {"t": "o", "v": [{"n": list(b"key"), "s": G.s_str(b"k%d" % i)}],
                                           "c": [{"n": list(b"value"), "d": shared(r, obj(r, b), b, bad / 3, keys)}]})} for i in range(r.choice([0, 1, 2, 4]))]}
        d["c"].append({"n": list(n.encode()), "d": c})
    # not necessarily in the order of the fields
    return crafted(r, d, slots(r, r.choice([0, .5, 1.]), True))


def crafted(r, d, old):
    r.shuffle(d["c"])
    order(r, d)
    x = ctx(r)
    f = G.fmt_of(x["style"])
    b = G.enc_json(d, r, exact=True) if f == "json" else G.ENC[f](d, r)
    return {"k": "from", "b": {x["style"]: list(b)}, "doc": strip(d, f), "old": old, **x}


def strip(d, f):
    """bytes are text in JSON"""
    def s(x):
        return G.s_str(base64.b64encode(bytes(x["m"]))) if f == "json" and x["k"] == "x" else x
    return {"t": d["t"], "v": [{"n": v["n"], "s": s(v["s"])} for v in d["v"]], "c": [{"n": c["n"], "d": strip(c["d"], f)} for c in d["c"]]}


def reg(r, mine):
    """mine: identifiers of this case"""
    i = r.choice(list(IDS.values()) + mine * 4)
    return {"k": "reg", "id": list(i), "c": r.choice("ADBCZ")}


def with_id(r, i, c, b, slot):
    """a document with one object, class c under the identifier i"""
    while True:
        o = obj(r, [x for x in BASE if c in BASE[x]][0])
        if o["c"] == c:
            break
    d = scope(r, o, b, 0)
    for v in d["v"]:
        if v["n"] == TYPE_ID:
            v["s"] = G.s_str(i)
    if SLOTS[slot][1] == "sh":
        d = order(r, {"t": "o", "v": [{"n": KEY, "s": G.s_int(3)}], "c": [{"n": VALUE, "d": d}]})
    return {"t": "o", "v": [], "c": [{"n": list(SLOTS[slot][0].encode()), "d": d}]}


def history(r, no):
    """identifiers registered while others are in use"""
    mine = ["%d:" % no + G.text(r).replace("\0", "0") for _ in range(r.choice([1, 2, 4]))]
    if r.random() < .3:
        mine += [mine[0] + "x"] + ([mine[0][:-1]] if len(mine[0]) > len("%d:" % no) else [])
    mine = [i.encode() for i in mine]
    ops = []
    for _ in range(r.choice([3, 6, 12])):
        x = r.random()
        if x < .5:
            ops.append(reg(r, mine))
        elif x < .9:
            k = r.randrange(8)
            ops.append(crafted(r, with_id(r, r.choice(mine), r.choice("ADBCZ"), SLOTS[k][2], k), slots(r, .5, True)))
        else:
            ops.append(round_(r))
    return ops


def from_model(r, no, ops):
    ids = dict(IDS, x=b"M%d:x" % no, y=b"M%d" % no + G.pair(r)[0], none=None)
    ids = {k: (v.encode() if isinstance(v, str) else v) for k, v in ids.items()}
    reg, out = {c: c for c in "ADBZ"}, []
    for o in ops:
        i = ids[o["id"]]
        if o["k"] == "reg":
            out.append({"k": "reg", "id": list(i), "c": o["c"]})
            reg.setdefault(o["id"], o["c"])
            continue
        slot = [s[0] for s in SLOTS].index(o["slot"])
        c = reg.get(o["id"], "A")
        x = {"c": c, "f": [{"k": "L", "e": []} if y == "kids" else leaf(r, y) for _, y in FIELDS[c]]}
        if o["kid"]:
            x["f"][0]["e"].append(obj(r, "Base", 0))
        d = scope(r, x, SLOTS[slot][2], 0)
        vs = []
        for v in d["v"]:
            if v["n"] == TYPE_ID:
                if i is None:
                    continue
                v["s"] = G.s_str(i)
            vs.append(v)
        d["v"] = vs
        for k in d["c"]:
            if k["n"] == list(b"kids") and o["kid"]:
                e = scope(r, {"c": "A", "f": [leaf(r, "i32"), leaf(r, "s8")]} if o["kid"] != "Z" else {"c": "Z", "f": [leaf(r, "i64")]}, "Base", 0)
                if o["kid"] == "bad":
                    [v for v in e["v"] if v["n"] == TYPE_ID][0]["s"] = G.s_str(b"nothing")
                if o["body"] == "throw":
                    # user code fails
                    k["d"]["c"].append({"n": [], "d": order(r, {"t": "o", "v": [{"n": TYPE_ID, "s": G.s_str(b"T")}, {"n": list(b"v"), "s": G.s_int(13)}], "c": []})})
                k["d"]["c"].insert(0, {"n": [], "d": e})
        if o["body"] == "bad":
            v = [v for v in d["v"] if v["n"] == list(b"v")][0]
            v["s"] = G.s_str(b"many")
        order(r, d)
        out.append(crafted(r, {"t": "o", "v": [], "c": [{"n": list(o["slot"].encode()), "d": d}]}, slots(r, .7, True)))
    return case(out)


def case(ops):
    return {"types": TYPES, "ops": ops}


def poly(c):
    exe = c.build(["poly"])["poly"]
    m = c.model("MC_Poly.tla", "MC_Poly%s.cfg" % ("_deep" if c.thorough else ""))
    s, r = m["scripts"], c.rng("model")
    s = s if len(s) <= c.n(1000, 20000) else r.sample(s, c.n(1000, 20000))
    c.conform(exe, "PolyTrace.tla", [from_model(r, i, x["ops"]) for i, x in enumerate(s)], "restorations enumerated by the model", count=lambda x: len(x["ops"]))
    r = c.rng("round")
    c.conform(exe, "PolyTrace.tla", [case([round_(r) for _ in range(r.choice([1, 3]))]) for _ in range(c.n(400, 8000))], "objects stored and restored", count=lambda x: len(x["ops"]))
    r = c.rng("from")
    c.conform(exe, "PolyTrace.tla", [case([from_(r) for _ in range(r.choice([1, 3, 6]))]) for _ in range(c.n(1200, 30000))], "documents in any order, with errors", count=lambda x: len(x["ops"]))
    r = c.rng("reg")
    # more identifiers than the registry began with
    c.conform(exe, "PolyTrace.tla", [case(history(r, i)) for i in range(c.n(400, 10000))], "registering classes", count=lambda x: len(x["ops"]))


REGISTRY = {"C14": poly}
NOTES = {
    "C14": ("MC_Poly models the replacing of an object behind a base pointer step by step, with failures at every step, and the registry; its histories are replayed; PolyTrace.tla validates "
            "what is stored, what is restored from documents in any field order and with identifiers and fields that are missing or wrong, the pointers afterwards and the number of objects alive",
            "exhaustive for histories of two (thorough: three) operations in the model; random objects of ten classes in three hierarchies, documents and registrations in the code; "
            "no claim about null pointers, nor about objects in containers of raw pointers when restoring them fails"),
}
