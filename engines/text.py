"""Text in several encodings (C19), binary data, base64 and hex (C20)."""
import base64
from vlib import gen as G

CODEC = {8: "utf-8", 16: "utf-16-le", 32: "utf-32-le"}
PAIRS = G.PAIRS
SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 500]
BIG = [1000, 1023, 1024, 1025, 2047, 2048, 4097, 9000]


def points(e, b):
    """code points of the longest valid part"""
    try:
        return [ord(c) for c in bytes(b).decode(CODEC[e])]
    except UnicodeDecodeError as x:
        return [ord(c) for c in bytes(b[:x.start]).decode(CODEC[e])]


def text(r, n, nul=True):
    style = r.random()
    if style < .3:
        pick = lambda: G.cp(r, .6)
    elif style < .5:
        pick = lambda: r.choice([0x10000, 0x10ffff, 0x1f600, 0xffff, 0x800])
    elif style < .65:
        pick = lambda: r.randrange(0x20, 0x7f)
    elif style < .8:
        pick = lambda: r.choice([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0xe0001, 0xe007f])
    else:
        k = r.randrange(n + 1)
        i = [0]
        def pick():
            i[0] += 1
            return r.randrange(0x20, 0x7f) if i[0] <= k else r.choice([0x20ac, 0x10ffff, 0xff])
    out = []
    while len(out) < n:
        c = pick()
        if (c or nul) and not 0xd800 <= c <= 0xdfff:
            out.append(c)
    return out


def encoded(e, cps):
    return list("".join(map(chr, cps)).encode(CODEC[e]))


BAD = {8: [[0x80], [0xc0, 0x80], [0xc1, 0xbf], [0xe0, 0x80, 0x80], [0xe0, 0x9f, 0xbf], [0xed, 0xa0, 0x80], [0xed, 0xbf, 0xbf], [0xf0, 0x80, 0x80, 0x80],
           [0xf0, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80], [0xf5, 0x80, 0x80, 0x80], [0xff], [0xfe], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xc3], [0xc3, 0x28],
           [0xf8, 0x88, 0x80, 0x80, 0x80], [0xe2, 0x28, 0xa1]],
       16: [[0, 0xd8], [0xff, 0xdf], [0, 0xdc, 0, 0xd8], [0, 0xd8, 0x41, 0], [0, 0xd8, 0, 0xd8], [0x41]],
       32: [[0, 0xd8, 0, 0], [0xff, 0xdf, 0, 0], [0, 0, 0x11, 0], [0xff, 0xff, 0xff, 0x7f], [0x41, 0, 0, 0x80], [0xff, 0xff, 0xff, 0xff], [0x41, 0, 0], [0x41]]}


def spoiled(r, e, b, whole=False, nul=True):
    """insert something invalid"""
    w = e // 8
    for _ in range(50):
        k = r.randrange(len(b) // w + 1) * w
        x = r.choice(BAD[e])
        if whole and len(x) % w:
            continue
        out = b[:k] + x + (b[k:] if r.random() < .7 else [])
        if not nul and any(not any(out[i:i + w]) for i in range(0, len(out), w)):
            continue
        if r.random() < .2 and not whole:
            out = out[:-1]
        return out
    return b


def some(r, e, n, invalid, whole=False, nul=True):
    b = encoded(e, text(r, n, nul))
    if r.random() < invalid:
        b = spoiled(r, e, b, whole, nul)
    return b, points(e, b)


def conv_case(r, e, b, c, to=None):
    to = to or r.choice([x for x in (8, 16, 32) if x != e])
    n = len(b)
    pre = r.choice([0, 0, 1, 7, 100])
    return {"op": "conv", "from": e, "to": to, "b": b, "c": c, "pre": pre,
            "cap": r.choice([0, pre, pre + n // 2, pre + n, pre + n + 1, pre + 2 * n, pre + 4 * n, 5000])}


def random_conv(r, big):
    e = r.choice([8, 16, 32])
    n = r.choice(BIG) if r.random() < big else r.choice(SIZES)
    to = r.choice([8, 16, 32])
    b, c = some(r, e, n, .3, whole=to == e)
    return conv_case(r, e, b, c, to)


PATHS = ["mem", "doc", "doc", "obj", "obj"]
FMTS = ["srl", "msg", "json", "jsonp"]


def store_case(r, big):
    e, to = r.choice([8, 16, 32]), r.choice([8, 16, 32])
    path, fmt = r.choice(PATHS), r.choice(FMTS)
    ty = r.choice(["bs", "bs", "bs", "ar", "p", "ch"] + (["S"] if path != "obj" else []))
    as_ = r.choice(["bs", "bs", "bs", "a16", "a3k", "ch"] + (["S"] if path != "obj" else []))
    if ty == "p" and path == "obj":
        ty = "bs"
    n = r.choice(BIG) if r.random() < big and ty != "ar" else r.choice(SIZES)
    if as_ == "a16" and r.random() < .8:
        n = r.choice([0, 1, 3, 5, 7, 8, 14, 15, 16, 17])
    if ty == "ch":
        n = 1
    if as_ == "ch" and r.random() < .8:
        n = r.choice([1, 1, 1, 0, 2])
    nul = ty not in ("ar", "p") and as_ not in ("a16", "a3k")
    b, c = some(r, e, n, .15 if fmt[0] != "j" or e != 8 else 0, whole=True, nul=nul)
    if ty == "ch":
        k = e // 8
        if len(b) != k:
            b = encoded(e, [r.randrange(1, 128)])
        c = points(e, b)
    o = {"op": "store", "from": e, "to": to, "b": b, "c": c, "ty": ty, "as": as_, "path": path, "fmt": fmt, "via": r.choice(["buf", "stream"])}
    if e == 32 and r.random() < .4:
        o["w"] = 1
    if to == 32 and r.random() < .4:
        o["w2"] = 1
    return o


def similar(r, c):
    c = list(c)
    x = r.random()
    if x < .2:
        return c
    if x < .4:
        return c[:-1]
    if x < .6:
        return c + [G.cp(r)]
    if c:
        k = r.randrange(len(c))
        c[k] = r.choice([c[k] ^ 1, c[k] + 0x80, c[k] + 0x100, c[k] + 0x10000])
        if c[k] > 0x10ffff or 0xd800 <= c[k] <= 0xdfff:
            c[k] = 0x41
    return c


def name_case(r):
    path, fmt = r.choice(["mem", "mem", "doc", "obj"]), r.choice(FMTS)
    pool = []
    for _ in range(r.choice([1, 3, 8])):
        pool.append(text(r, r.choice([1, 2, 3, 7, 8, 9, 16, 31, 33, 70, 127, 128, 300])))
        for _ in range(r.randrange(3)):
            pool.append(similar(r, pool[-1]))
    if r.random() < .4:
        p = r.choice(PAIRS)
        pool += [list(map(ord, p[0])), list(map(ord, p[1]))]
    if path == "mem" and r.random() < .3:
        pool.append([])
    pool = [p for p in pool if p or path == "mem"]
    r.shuffle(pool)

    def nm(cps, invalid):
        e = r.choice([8, 16, 32])
        b = encoded(e, cps)
        if r.random() < invalid and (e != 8 or fmt[0] != "j"):
            b = spoiled(r, e, b)
        return {"enc": e, "b": b, "c": points(e, b), "n": 0}
    names = [nm(r.choice(pool), .05) for _ in range(r.choice([1, 2, 5, 12]))]
    asks = [nm(r.choice(pool), .05) for _ in range(r.choice([3, 8, 15]))]
    if path != "obj":
        for n in names + asks:
            n["n"] = int(r.random() < .3)
    else:
        # every field once, nothing that is refused
        names = names[:1] + [n for i, n in enumerate(names) if i and key(n) not in [key(x) for x in names[:i]]]
        asks = [n for i, n in enumerate(asks) if key(n) not in [key(x) for x in asks[:i]]]
        asks = [a for a in asks if a["b"]]
    return {"op": "names", "names": names, "asks": asks, "path": path, "fmt": fmt, "via": r.choice(["buf", "stream"])}


def key(n):
    return bytes(n["b"]) if n["enc"] == 8 else "".join(map(chr, n["c"])).encode()


def eq_case(r):
    c = text(r, r.choice(SIZES[:16]))
    d = similar(r, c)
    e, f = r.choice([8, 16, 32]), r.choice([8, 16, 32])
    return {"op": "eq", "a": {"enc": e, "b": encoded(e, c), "c": c}, "z": {"enc": f, "b": encoded(f, d), "c": d}}


def text_check(c):
    exe = c.build(["text"])["text"]
    r = c.rng("model")
    cases = []
    d = "_deep" if c.thorough else ""
    for e in (8, 16, 32):
        m = c.model("MC_Text.tla", "MC_Text_%d%s.cfg" % (e, d))
        for x in m["scripts"]:
            to = [t for t in (8, 16, 32) if t != e]
            for t in to if c.thorough and len(m["scripts"]) < 20000 else [r.choice(to)]:
                cases.append(conv_case(r, e, x["b"], x["c"], t))
    c.conform(exe, "TextTrace.tla", cases, "conversion of all short texts over boundary symbols")
    r = c.rng("conv")
    c.conform(exe, "TextTrace.tla", [random_conv(r, .03) for _ in range(c.n(2500, 60000))], "conversion of random texts")
    r = c.rng("store")
    c.conform(exe, "TextTrace.tla", [store_case(r, .03) for _ in range(c.n(4000, 100000))], "text stored in one encoding and restored in another")
    r = c.rng("names")
    c.conform(exe, "TextTrace.tla", [name_case(r) for _ in range(c.n(1500, 30000))] + [eq_case(r) for _ in range(c.n(800, 15000))],
              "names in several encodings")


# ---------------------------------------------------------------------- binary
def rbytes(r, n):
    x = r.random()
    if x < .2:
        return [r.choice([0, 255, 128])] * n
    if x < .4:
        return [r.choice([0, 1, 63, 127, 128, 191, 192, 251, 252, 254, 255]) for _ in range(n)]
    return [r.randrange(256) for _ in range(n)]


def b64_text(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 33, 100, 300])
    t = list(base64.b64encode(bytes(rbytes(r, n))))
    x = r.random()
    if x < .4:
        return t
    if x < .55 and t:
        t[r.randrange(len(t))] = r.choice([61, 45, 95, 32, 10, 0, 128, 255, 254, 43, 47, 64, 91, 96, 123, 46, 58, 44])
    elif x < .7:
        t = t[:r.randrange(len(t) + 1)]
    elif x < .8:
        t += [r.choice([61, 65, 10])] * r.randrange(1, 5)
    elif x < .9:
        k = r.randrange(len(t) + 1)
        t = t[:k] + list(b"=" * r.choice([1, 2, 3, 4])) + t[k:]
    else:
        t = list(r.choice([b"====", b"A===", b"AA==AAAA", b"AAA=AAA=", b"=AAA", b"A=AA", b"AA=A", b"==AA", b"QR==", b"QUJ=", b"QUL=", b"AAAA====", b"=", b"=="]))
    return t


def hex_text(r):
    t = list(bytes(rbytes(r, r.choice([0, 1, 2, 3, 8, 50]))).hex().encode())
    if r.random() < .4:
        t = [c - 32 if c > 96 and r.random() < .7 else c for c in t]
    if r.random() < .5 and t:
        t[r.randrange(len(t))] = r.choice([47, 58, 64, 71, 96, 103, 0, 32, 255, 120, 43, 45, 176])
    if r.random() < .1:
        t = t[:-1]
    return t


KINDS = ["v1", "v2", "v4", "v8", "bit", "bytes"]
UNIT = {"v2": 2, "v4": 4, "v8": 8}


def bin_case(r, big):
    path, fmt = r.choice(PATHS), r.choice(FMTS)
    ty, as_ = r.choice(KINDS + ["text", "text"]), r.choice(KINDS)
    if ty == "text":
        b = b64_text(r)
        if fmt[0] == "j" or path != "mem":
            b = [x for x in b if x < 128]
    else:
        n = r.choice([1000, 1023, 1024, 1025, 3000, 5000]) if r.random() < big else r.choice(SIZES)
        w = max(UNIT.get(ty, 1), UNIT.get(as_, 1) if r.random() < .8 else 1)
        b = rbytes(r, n // w * w)
    return {"op": "bin", "b": b, "ty": ty, "as": as_, "path": path, "fmt": fmt, "via": r.choice(["buf", "stream"])}


def binary_check(c):
    exe = c.build(["text"])["text"]
    d = "_deep" if c.thorough else ""
    cases = []
    r = c.rng("model")
    for kind, ops in (("b64", ["b64dec"]), ("hex", ["hexdec"]), ("bytes", ["b64enc", "hexenc"])):
        m = c.model("MC_Text.tla", "MC_Text_%s%s.cfg" % (kind, d))
        cases += [{"op": o, "b": x["b"], "more": r.choice([0, 1, 10])} for x in m["scripts"] for o in ops]
    c.conform(exe, "TextTrace.tla", cases, "all short texts and bytes")
    r = c.rng("tools")
    # every byte at every place, every pair of neighbours
    cases = [{"op": o, "b": [0] * k + [x] + [255] * j, "more": 0} for x in range(256) for k, j in ((0, 0), (1, 0), (2, 0), (0, 1), (0, 2)) for o in ("b64enc", "hexenc")]
    cases += [{"op": "b64dec", "b": list(b"QUJD")[:k] + [x] + list(b"QUJD")[k + 1:] + t, "more": 0} for x in range(256) for k in range(4) for t in ([], list(b"QUI="))]
    cases += [{"op": "hexdec", "b": [48] * k + [x] + [48] * (1 - k)} for x in range(256) for k in (0, 1)]
    for _ in range(c.n(600, 20000)):
        cases += [{"op": r.choice(["b64enc", "hexenc"]), "b": rbytes(r, r.choice(SIZES + [1000, 3000]))}, {"op": "b64dec", "b": b64_text(r), "more": r.choice([0, 1, 2, 3, 7, 100])},
                  {"op": "hexdec", "b": hex_text(r)}]
    c.conform(exe, "TextTrace.tla", cases, "base64 and hex")
    r = c.rng("bin")
    c.conform(exe, "TextTrace.tla", [bin_case(r, .03) for _ in range(c.n(4000, 80000))], "binary data stored and restored")


REGISTRY = {"C19": text_check, "C20": binary_check}
NOTES = {"C19": ("Text defines the transformation formats by code points; all texts over boundary symbols up to a length, enumerated by TLC (MC_Text), and random "
                 "ones are converted, stored, restored and used as names in the code; every result is a transition of TextTrace",
                 "all texts of up to 3 (thorough: 4) boundary symbols per encoding; random texts of up to 9000 code points, names with equal hashes included"),
         "C20": ("Text defines base64 and hex; all texts over boundary characters and all bytes over boundary values up to a length, enumerated by TLC (MC_Text), "
                 "and random ones are encoded, decoded, stored and restored in the code; every result is a transition of TextTrace",
                 "all base64 texts of up to 5 (thorough: 8) boundary characters, every byte at every position of a group; random data of up to 5000 bytes")}
