"""Writing, reading and converting documents: C02, C03, C04, C05."""
from vlib import gen as G


def docs(c, r, n, finite):
    out = []
    for i in range(n):
        x = i % 10
        if x == 0:
            d = G.doc(r, 0, 12, finite)
        elif x == 1:
            d = G.doc(r, 6, 3, finite)
        elif x == 2:
            d = G.doc(r, 2, 25, finite)
        else:
            d = G.doc(r, 3, 6, finite)
        out.append(d)
    return out


def edge_docs(r, finite):
    """every length, integer and floating point edge, and more names than fit one byte"""
    out = []
    obj = lambda v, c=(): {"t": "o", "v": list(v), "c": list(c)}
    arr = lambda v, c=(): {"t": "a", "v": list(v), "c": list(c)}
    nm = lambda s: list(s.encode() if isinstance(s, str) else s)
    out.append(arr({"n": [], "s": G.s_int(v)} for v in G.INTS))
    out.append(obj({"n": nm("n%d" % i), "s": G.s_int(v)} for i, v in enumerate(G.INTS)))
    out.append(arr({"n": [], "s": G.s_fp(v)} for v in G.FPS))
    out.append(obj({"n": nm("f"), "s": G.s_fp(-v)} for v in G.FPS))
    for n in G.LENGTHS:
        out.append(obj([{"n": list(G.text_of_size(r, n)), "s": G.s_str(G.text_of_size(r, n))},
                        {"n": nm("x"), "s": G.s_bin(bytes(r.randrange(256) for _ in range(n)))}],
                       [{"n": list(G.text_of_size(r, n)), "d": arr([{"n": [], "s": G.s_str(G.text_of_size(r, n))}])}]))
    # many names, each used twice
    names = ["k%d" % i for i in range(300)]
    out.append(obj([{"n": nm(n), "s": G.s_int(i)} for i, n in enumerate(names)] +
                   [{"n": nm(n), "s": G.s_bool(i % 2)} for i, n in enumerate(names)]))
    out.append(obj([{"n": nm(n), "s": G.s_null()} for n in names[:140]],
                   [{"n": nm(n), "d": obj([{"n": nm(n), "s": G.s_int(i)}])} for i, n in enumerate(names[:140])]))
    # numbers of elements around the limits of the length fields
    for n in (14, 15, 16, 17, 255, 256):
        out.append(arr({"n": [], "s": G.s_int(i)} for i in range(n)))
        out.append(obj({"n": nm("k"), "s": G.s_null()} for i in range(n)))
        out.append(arr([], [{"n": [], "d": r.choice([obj([]), arr([])])} for i in range(n)]))
    # every byte in binary data, every ASCII character in text and in names
    out.append(obj([{"n": nm("b"), "s": G.s_bin(bytes(range(256)))}] +
                   [{"n": [c], "s": G.s_str(bytes([c]))} for c in range(128)] +
                   [{"n": nm("x%sy" % chr(c)), "s": G.s_str("x%sy%s" % (chr(c), chr(c)))} for c in G.CP_EDGES]))
    return out


def big_docs(r, lengths):
    obj = lambda v, c=(): {"t": "o", "v": list(v), "c": list(c)}
    out = []
    for n in lengths:
        t = list(G.text_of_size(r, n, .995))
        out.append(obj([{"n": [97], "s": {"k": "s", "g": 0, "m": t}}, {"n": [98], "s": G.s_int(n)}]))
        out.append(obj([{"n": [97], "s": G.s_bin(r.randbytes(n))}, {"n": [98], "s": G.s_int(n)}]))
        out.append(obj([{"n": t, "s": G.s_int(n)}, {"n": [98], "s": G.s_int(1)}, {"n": t, "s": G.s_int(2)}]))
    return out


def pick(r, l, n):
    return l if len(l) <= n else r.sample(l, n)


def wire_format(fmt):
    def check(c):
        exe = c.build(["wire"])["wire"]
        m = c.model("MC_Wire.tla", "MC_Wire_%s%s.cfg" % (fmt, "_deep" if c.thorough else ""))
        finite = fmt == "json"
        r = c.rng("write")
        cases = []
        ds = edge_docs(r, finite) + docs(c, r, c.n(250, 6000), finite)
        for i, d in enumerate(ds):
            for style in G.STYLES[fmt]:
                cases.append({"op": "w", "fmt": fmt, "style": style, "via": "buf" if i % 3 else "stream", "doc": d})
        for d in big_docs(r, c.n([65534, 65535, 65536], G.BIG_LENGTHS)):
            cases.append({"op": "w", "fmt": fmt, "style": G.STYLES[fmt][0], "via": "buf", "doc": d})
        c.conform(exe, "Wire.tla", cases, "documents written")
        r = c.rng("read")
        cases = [{"op": "r", "fmt": fmt, "via": via, "b": b, "wf": True}
                 for b in pick(r, [s["b"] for s in m["scripts"]], c.n(1500, 40000)) for via in ("buf", "stream")]
        c.conform(exe, "Wire.tla", cases, "encodings enumerated by the model")
        cases = []
        ds = edge_docs(r, finite) + docs(c, r, c.n(500, 10000), finite)
        for i, d in enumerate(ds):
            cases.append({"op": "r", "fmt": fmt, "via": "buf" if i % 3 else "stream", "b": G.ENC[fmt](d, r), "wf": True})
        for i, d in enumerate(big_docs(r, c.n([65535, 65536], G.BIG_LENGTHS))):
            cases.append({"op": "r", "fmt": fmt, "via": "buf" if i % 2 else "stream", "b": G.ENC[fmt](d, r), "wf": True})
        c.conform(exe, "Wire.tla", cases, "encodings with random legal choices")
    return check


def round_trip(c):
    exe = c.build(["wire"])["wire"]
    c.model("MC_Chain.tla", "MC_Chain.cfg")
    r = c.rng("rt")
    cases = []
    for i, d in enumerate(edge_docs(r, True) + docs(c, r, c.n(400, 8000), True)):
        chain = [r.choice(["srl", "msg", "json", "jsonp"]) for _ in range(r.choice([1, 2, 3, 4, 6]))]
        if i % 4 == 0:
            chain = [["srl"], ["msg"], ["json"], ["jsonp"]][(i // 4) % 4] + chain[:1]
        cases.append({"op": "rt", "doc": d, "styles": chain, "fmts": [G.fmt_of(s) for s in chain],
                      "vias": [r.randrange(8) for _ in chain]})
    for i, d in enumerate(docs(c, r, c.n(100, 2000), False)):
        chain = [r.choice(["srl", "msg"]) for _ in range(3)]
        cases.append({"op": "rt", "doc": d, "styles": chain, "fmts": chain, "vias": [r.randrange(8) for _ in chain]})
    for i, d in enumerate(big_docs(r, c.n([65535, 65536], G.BIG_LENGTHS))):
        chain = ["srl", "msg", "json", "srl"]
        cases.append({"op": "rt", "doc": d, "styles": chain, "fmts": chain, "vias": [i % 8] * 4})
    c.conform(exe, "Wire.tla", cases, "chains of conversions", count=lambda x: len(x["fmts"]))


REGISTRY = {"C02": round_trip, "C03": wire_format("srl"), "C04": wire_format("msg"), "C05": wire_format("json")}

_W = ("every byte written by the code is read item by item by the format specification and compared with the document; "
      "encodings enumerated by TLC from the specification's nondeterministic encoder, and random ones, are loaded by the code and compared")
_N = ("exhaustive over the small documents of MC_Wire (all legal encodings, prefix freeness); sampled boundary-dense documents "
      "beyond; the specification reads the bytes, the harness only transports documents")
NOTES = {
    "C02": ("chains of conversions run in the code, each hop validated against SrlDoc!DocBack",
            "exhaustive over MC_Chain's small documents and chains; sampled boundary-dense documents beyond"),
    "C03": (_W, _N), "C04": (_W, _N), "C05": (_W, _N),
}
