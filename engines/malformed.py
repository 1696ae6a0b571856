"""Malformed, truncated and excessively nested input: C15, C23."""
from vlib import gen as G

obj = lambda v=(), c=(): {"t": "o", "v": list(v), "c": list(c)}
arr = lambda v=(), c=(): {"t": "a", "v": list(v), "c": list(c)}
nm = lambda s: list(s.encode())
val = lambda n, s: {"n": nm(n), "s": s}
sub = lambda n, d: {"n": nm(n), "d": d}
el = lambda s: {"n": [], "s": s}
ed = lambda d: {"n": [], "d": d}


def leaf(r):
    return obj([val("a", G.s_int(r.randrange(-5, 300))), val("b", G.s_fp(1.5)), val("c", G.s_str(G.text(r, 5))), val("d", G.s_bool(1))])


def everything(r):
    """a document that fits the target type Everything of harness/malformed.cpp"""
    pairs = lambda: arr((), [ed(obj([val("key", G.s_str("k%d" % i)), val("value", G.s_fp(i / 2))])) for i in range(r.randrange(4))])
    fields_c = [sub("vi", arr([el(G.s_int(i)) for i in range(r.randrange(5))])), sub("ls", arr([el(G.s_str("x" * i)) for i in range(3)])),
                sub("m", pairs()), sub("si", arr([el(G.s_int(i)) for i in range(3)])),
                sub("p", obj([val("first", G.s_int(1)), val("second", G.s_str("two"))])),
                sub("t", arr([el(G.s_int(1)), el(G.s_str("b")), el(G.s_fp(2.5))])),
                sub("ca", arr([el(G.s_int(i)) for i in range(3)])),
                sub("up", leaf(r)),
                sub("sp", obj([val("srl_shared_key", G.s_int(0))], [sub("srl_shared_value", leaf(r))])),
                sub("sp2", obj([val("srl_shared_key", G.s_int(r.randrange(2)))])),
                sub("poly", obj([val("srl_type_id", G.s_str("Derived")), val("x", G.s_int(4)), val("s", G.s_str("sss"))])),
                sub("ht", obj([val("q", G.s_int(1)), val("w", G.s_int(2))])),
                sub("leaves", arr((), [ed(leaf(r)) for _ in range(r.randrange(3))])), sub("leaf", leaf(r))]
    fields_v = [val("str", G.s_str("abc")), val("wstr", G.s_str("äbc")), val("ch", G.s_str("c")), val("bin", G.s_bin(bytes(range(9)))),
                val("bin4", G.s_bin(bytes(range(8)))), val("u32", G.s_str("𝄞x")), val("i8", G.s_int(-7)), val("u64", G.s_int(2 ** 63)),
                val("f", G.s_fp(0.25)), val("a", G.s_int(3)), val("c", G.s_str("c"))]
    cs = [x for x in fields_c if r.random() < .5]
    vs = [x for x in fields_v if r.random() < .5]
    if not r.randrange(4):
        # something of the wrong shape
        for x in cs[:1]:
            x["d"] = G.doc(r, 1, 4)
        for x in vs[:1]:
            x["s"] = G.scalar(r)
    return obj(vs, cs)


SPECIAL = {
    "srl": [0, 1, 2, 3, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65, 66, 70, 128, 129, 130, 134, 255, 127],
    "msg": [0, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc4, 0xc5, 0xc6, 0xc7, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3,
            0xd4, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff],
    "json": list(b'{}[]",:\\ntfu0123456789.eE+-/* \n\t') + [0, 1, 127, 128, 192, 237, 255],
}
CHUNKS = {
    "srl": [[0x20] + [255] * 9 + [1], [0x20, 255, 255, 255, 255, 15], [2 | 64] + [255] * 8 + [127], [6 | 64, 200, 1], [64] * 300, [128] * 300,
            [0x20] + [128] * 9 + [1], [0x20] + [255] * 4 + [255, 255, 255, 255, 127]],
    "msg": [[0xdb, 255, 255, 255, 255], [0xdd, 255, 255, 255, 255], [0xdf, 255, 255, 255, 255], [0xc6, 127, 255, 255, 255], [0xda, 255, 255],
            [0x91] * 300, [0x81, 0xa0] * 200, [0xdc, 255, 255], [0xdd, 0, 1, 0, 0], [0xc7, 4, 1, 0, 0, 0, 0], [0xd4, 1, 1]],
    "json": [list(s.encode()) for s in ('"', '\\', '\\u', '\\ud800', '\\ud800\\u0041', '\\udc00', '\\u12', '{"', '[' * 300, '{"a":' * 200, '//', '/*',
             '/* */', '1e400', '-', '--1', '1.2.3', '1e', 'nul', 'tru', 'falsey', ',,', '::', ']', '}', '[}', '{]', 'NaN', '0x1g', '1' * 400,
             '"' + 'a' * 1100, '1' * 1030, ' ' * 1030)],
}


def mutate(r, fmt, b):
    b = list(b)
    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
        k = r.randrange(9)
        i = r.randrange(len(b) + 1) if b else 0
        if k == 0 and i < len(b):
            b[i] = r.randrange(256)
        elif k == 1 and i < len(b):
            b[i] = r.choice(SPECIAL[fmt])
        elif k == 2 and i < len(b):
            b[i] ^= 1 << r.randrange(8)
        elif k == 3:
            b[i:i] = [r.choice(SPECIAL[fmt])]
        elif k == 4:
            del b[i:i + r.choice([1, 1, 2, 4, 30])]
        elif k == 5:
            b[i:i] = r.choice(CHUNKS[fmt])
        elif k == 6:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.randrange(40)]
        elif k == 7:
            del b[i:]
        elif i < len(b):
            b[i] = (b[i] + r.choice([-1, 1, 255, 127])) % 256
    return b


def cuts_of(r, n, cap):
    """prefixes of 0 .. n-1 bytes"""
    if n <= cap:
        return list(range(n))
    s = set(range(64)) | set(range(n - 64, n)) | {r.randrange(n) for _ in range(cap - 128)}
    s |= {k for m in range(1024, n + 3, 1024) for k in (m - 2, m - 1, m, m + 1) if 0 <= k < n}
    return sorted(x for x in s if 0 <= x < n)


def malformed(c):
    exes = c.build(["wire", "malformed"])
    for f in G.FMTS:
        c.model("MC_Wire.tla", "MC_Wire_%s.cfg" % f)
    # every truncation of well-formed documents
    r = c.rng("cut")
    cases = []
    for fmt in G.FMTS:
        ds = [G.doc(r, r.choice([1, 2, 3]), 5) for _ in range(c.n(70, 1500))] + [everything(r) for _ in range(c.n(10, 100))]
        ds += [obj([val("x" * r.randrange(1, 40), G.s_str(G.text_of_size(r, n)))]) for n in (31, 32, 255, 256)]
        big = [obj([val("k", G.s_str(G.text_of_size(r, n)))] * 2) for n in (1000, 1020, 1023, 1024, 2050)]
        big += [obj([val("k%d" % i, G.s_int(i * 1000))for i in range(260)]), arr([el(G.s_fp(i / 7)) for i in range(300)]),
                obj([val("b", G.s_bin(r.randbytes(1500)))])]
        for i, d in enumerate(ds + big):
            b = G.ENC[fmt](d, r) if fmt != "json" else G.enc_json(d, r, edge_ws=False)
            for via in ("buf", "stream"):
                cases.append({"op": "cut", "fmt": fmt, "via": via, "b": b, "cuts": cuts_of(r, len(b), c.n(500, 3000)), "wf": True})
    c.conform(exes["wire"], "Wire.tla", cases, "prefixes of documents", count=lambda x: len(x["cuts"]))
    # corrupted documents, loaded
    r = c.rng("mut")
    cases = []
    for fmt in G.FMTS:
        for i in range(c.n(2500, 60000)):
            d = G.doc(r, r.choice([0, 1, 2, 3]), 5) if i % 2 else everything(r)
            b = mutate(r, fmt, G.ENC[fmt](d, r))
            # what is well-formed all the same denotes a document
            op = "r" if fmt != "json" else "raw"
            cases.append({"op": op, "fmt": fmt, "via": ("buf", "stream")[i // 2 % 2], "b": b, "wf": False})
        for i in range(c.n(500, 20000)):
            b = [r.choice(SPECIAL[fmt]) if r.random() < .7 else r.randrange(256) for _ in range(r.randrange(0, 40))]
            cases.append({"op": "raw", "fmt": fmt, "via": ("buf", "stream")[i % 2], "b": b, "wf": False})
    c.conform(exes["wire"], "Wire.tla", cases, "corrupted documents loaded")
    # restored into types
    r = c.rng("typed")
    cases = []
    for fmt in G.FMTS:
        for i in range(c.n(2500, 60000)):
            b = G.ENC[fmt](everything(r), r)
            t = 0
            if i % 5:
                b = mutate(r, fmt, b)
            if i % 3 == 0:
                t = r.randrange(10)
                if i % 2:
                    b = mutate(r, fmt, G.ENC[fmt](r.choice([leaf(r), arr((), [ed(leaf(r))] * 3), arr([el(G.s_int(3))] * 9), G.doc(r, 2, 4)]), r))
            cases.append({"op": "raw", "fmt": fmt, "via": ("buf", "stream")[i % 2], "b": b, "target": t, "wf": False})
    c.conform(exes["malformed"], "Wire.tla", cases, "corrupted documents restored into types")


def nested(r, d, shape):
    """a document with scopes nested d levels below the root"""
    def filler():
        k = r.randrange(4)
        if k == 0 or shape == "bare":
            return arr()
        return obj([val("v", G.s_int(1))], [sub("s", arr())] * r.randrange(3)) if k < 3 else arr([el(G.s_null())])
    cur = None
    for lvl in range(d, -1, -1):
        t = {"obj": "o", "arr": "a"}.get(shape) or r.choice("oa")
        x = {"t": t, "v": [], "c": []}
        deep = lvl == d
        if not deep:
            x["c"] = [{"n": nm("c"), "d": cur}]
        if shape != "bare" and lvl < d and r.random() < .15:
            x["v"].append({"n": nm("v"), "s": G.s_int(lvl)})
            x["c"].insert(r.randrange(len(x["c"]) + 1), {"n": nm("f"), "d": filler()}) if lvl + 2 <= d else None
        if x["t"] == "a":
            for y in x["c"]:
                y["n"] = []
            for y in x["v"]:
                y["n"] = []
        cur = x
    return cur


def from_events(r, base, evs):
    stack = []
    root = None
    for e in [r.choice("oa") for _ in range(base + 1)] + list(evs):
        if e == "e":
            stack.pop()
        elif e == "v":
            t = stack[-1]
            t["v"].append({"n": nm("v") if t["t"] == "o" else [], "s": G.s_bool(1)})
        else:
            x = {"t": e, "v": [], "c": []}
            if stack:
                stack[-1]["c"].append({"n": nm("s") if stack[-1]["t"] == "o" else [], "d": x})
            else:
                root = x
            stack.append(x)
    return root


def nesting(c):
    exe = c.build(["wire"])["wire"]
    m = c.model("MC_Nest.tla", "MC_Nest%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("nest")
    scripts = m["scripts"]
    scripts = scripts if len(scripts) <= c.n(120, 4000) else r.sample(scripts, c.n(120, 4000))
    cases = []

    def add(d, i):
        for fmt in G.FMTS:
            cases.append({"op": "nest", "fmt": fmt, "via": ("buf", "stream")[i % 2], "wf": True,
                          "b": G.ENC[fmt](d, r) if fmt != "json" else G.enc_json(d, r, ws=.02)})
    for i, s in enumerate(scripts):
        add(from_events(r, 126, s["ev"]), i)
    for shape in ("obj", "arr", "bare", "mixed"):
        for i, d in enumerate([0, 1, 60, 126, 127, 128, 129, 130, 200]):
            add(nested(r, d, shape), i)
            add(nested(r, d, shape), i + 1)
    # many scopes, but not nested: before, after and between deep ones
    flat = lambda n: [{"n": [], "d": r.choice([obj(), arr(), arr((), [ed(obj())])])} for _ in range(n)]
    for i, d in enumerate([1, 127, 128, 126]):
        x = nested(r, d - 1, "arr")
        add(arr((), flat(150) + [ed(x)] + flat(150) + [ed(nested(r, d - 1, "mixed"))]), i)
    for i, d in enumerate([127, 128]):
        add(arr((), flat(40) + [ed(nested(r, d - 1, "arr")) for _ in range(3)] + [ed(nested(r, d, "arr"))]), i)
    c.conform(exe, "Wire.tla", cases, "nested documents")


NOTES = {
    "C15": ("every truncation, and random corruptions, of encodings whose denotation the format specification knows are loaded by the code "
            "(AddressSanitizer) and restored into a broad target type; verdicts are validated against the Wire machine",
            "prefix freeness is model-checked for all small documents; truncations are exhaustive per document (up to 500 bytes), "
            "corruptions sampled; memory errors are observed with AddressSanitizer, hangs with a time limit"),
    "C23": ("all item sequences at the limit enumerated by TLC (MC_Nest) and documents nested around the limit are loaded by the code; the "
            "Wire machine counts open scopes and demands acceptance or rejection",
            "exhaustive for 6 items below 126 scopes in the model, replay sampled in quick; all formats, buffers and streams"),
}
REGISTRY = {"C15": malformed, "C23": nesting}
