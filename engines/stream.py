"""Reading from and writing to streams: C07, C08."""
from vlib import gen as G
from engines import typed as T


# ------------------------------------------------------------------- reading
def tokens(r, fmt):
    """values whose encoding may be cut in two, as (name, kind, content)"""
    out = []
    v = lambda s, n=b"t": out.append((list(n), "v", s))
    for s in (G.s_null(), G.s_bool(1), G.s_bool(0), G.s_int(0), G.s_int(300), G.s_int(2 ** 63 + 12345), G.s_int(-2 ** 62 - 1), G.s_fp(0.1), G.s_fp(1e300), G.s_fp(.5),
              G.s_str(""), G.s_str("abcdefghijklmnop"), G.s_str("a\"b\\c\n\u20ac\U0001f600\x01z"), G.s_str("\U0010ffff" * 5), G.s_bin(b""), G.s_bin(bytes(range(40)))):
        v(s)
    v(G.s_int(7), b"a name of some length")
    v(G.s_int(7), "n\"\u00e9\U0001f600\\".encode())
    out.append((list(b"o"), "c", {"t": "o", "v": [{"n": [97], "s": G.s_int(1)}], "c": []}))
    out.append((list(b"r"), "c", {"t": "a", "v": [], "c": [{"n": [], "d": {"t": "a", "v": [], "c": []}}]}))
    return out


def enc(fmt, d, r):
    return G.ENC[fmt](d, r) if fmt != "json" else G.enc_json(d, r, exact=True, esc=r.choice([0, .3, .9]))


def names(d):
    seen = []
    for x in d["v"] + d["c"]:
        if x["n"] and x["n"] not in seen:
            seen.append(x["n"])
    return seen


def asks(r, d):
    if d["t"] != "o":
        return []
    # which of a value and a scope of the same name is meant is not promised
    kinds = [{bytes(x["n"]) for x in d[k]} for k in "vc"]
    n = [x for x in names(d) if not all(bytes(x) in s for s in kinds)]
    r.shuffle(n)
    n = n[:r.choice([0, 1, 2, 3, 4])]
    if n and r.random() < .1:
        n[r.randrange(len(n))] = list(b"there is no such name")
    return n


def in_case(r, fmt, d, b=None, wf=True):
    return {"op": "in", "fmt": fmt, "doc": d if wf else 0, "b": b if b is not None else enc(fmt, d, r), "wf": wf, "asks": asks(r, d), "seed": r.randrange(2 ** 30)}


def spoil(r, b):
    b = list(b)
    x = r.random()
    if x < .5:
        return b[:r.randrange(len(b))]
    for _ in range(r.choice([1, 1, 3])):
        i = r.randrange(len(b))
        x = r.random()
        if x < .5:
            b[i] = r.choice([0, 255, 34, 92, 44, 58, 91, 93, 123, 125, r.randrange(256)])
        elif x < .8:
            del b[i]
            if not b:
                b = [0]
        else:
            b.insert(i, r.randrange(256))
    return b


def padded(r, fmt, n, tok, order):
    """the token some n bytes after the start"""
    pad = ([112], "v", G.s_str(bytes([r.randrange(97, 123)]) * n) if fmt == "json" or r.random() < .7 else G.s_bin(bytes(n)))
    items = [pad, tok, ([122], "v", G.s_int(1))]
    if order:
        items = [pad, tok, ([112, 50], "v", G.s_str("q" * r.randrange(1010, 1030))), (tok[0] + [50], tok[1], tok[2])]
    d = T.mk("o", items)
    d["order"] = [k for _, k, _ in items]
    return d


def reading(c):
    exes = c.build(["stream", "typed"])
    exe = exes["stream"]
    m = c.model("MC_Window.tla", "MC_Window%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("window")
    cases = []
    s = m["scripts"]
    for i, x in enumerate(s if len(s) <= c.n(900, 12000) else r.sample(s, c.n(900, 12000))):
        fmt = G.FMTS[i % 3]
        items = []
        for k, o in enumerate(x["ops"]):
            n = max(0, o["n"] * 256 + r.randrange(-9, 4))
            nm = list(b"%d" % k)
            if o["op"] == "block":
                items.append((nm, "v", G.s_bin(r.randbytes(n * 3 // 4 if fmt == "json" else n))))
            elif o["op"] == "look":
                items.append((nm, "v", G.s_str(("\\\n" * n)[:n // 2] if fmt == "json" else "\\" * n)))
            elif r.random() < .8:
                items.append((nm, "v", G.s_str("x" * n)))
            else:
                items.append((list(b"%d" % k + b"n" * n), "v", G.s_int(k)))
        d = T.mk("o", items)
        b = enc(fmt, d, r)
        if x["ops"][-1]["op"] == "fail":
            cases.append(in_case(r, fmt, d, b[:len(b) - r.randrange(1, 300)], False))
        else:
            cases.append(in_case(r, fmt, d, b))
    c.conform(exe, "StreamTrace.tla", cases, "histories of the window enumerated by the model")
    r = c.rng("sweep")
    cases = []
    for fmt in G.FMTS:
        for tok in tokens(r, fmt):
            for n in range(975, 1025):
                if c.thorough or r.random() < .36:
                    d = padded(r, fmt, n + (r.choice([0, 1024]) if c.thorough else 0), tok, r.random() < .15)
                    cases.append(in_case(r, fmt, d))
                    if r.random() < .1:
                        cases.append(in_case(r, fmt, d, spoil(r, enc(fmt, d, r)), False))
    for n in range(940, 1025):
        # numbers with many digits
        for _ in range(c.n(1, 8)):
            tok = ([116], "v", G.s_fp(0.1))
            d = padded(r, "json", n + r.choice([0, 0, 1024]), tok, False)
            b = bytes(enc("json", d, r)).replace(b"0.1", r.choice([b"0.1" + b"0" * r.randrange(20, 58), b"%de-%d" % (10 ** k, k + 1) if (k := r.randrange(1, 50)) else b""]))
            cases.append(in_case(r, "json", d, list(b)))
    c.conform(exe, "StreamTrace.tla", cases, "tokens at every position near the end of the window")
    r = c.rng("random")
    cases = []
    for i in range(c.n(240, 8000)):
        fmt = G.FMTS[i % 3]
        d = G.doc(r, 3, 8, fmt == "json", r.choice([0, .02, .1]))
        if G.size(d) > 40000:
            continue
        cases.append(in_case(r, fmt, d))
        if i % 2:
            cases.append(in_case(r, fmt, d, spoil(r, enc(fmt, d, r)), False))
    c.conform(exe, "StreamTrace.tla", cases, "random documents")
    r = c.rng("typed")
    cases = []
    for i in range(c.n(400, 12000)):
        t = T.typ(r, r.choice(["dyn", "dyn", "two", "vec.dyn", "list.s16", "ht.dyn", "map.s8.dyn"]), r.choice([1, 2, 3]), False)
        g = T.Docs(r, r.choice([0, 0, .03]), r.choice([.2, .6]))
        d = T.root_doc(g, t)
        pad(r, t, d)
        cases.append(T.restore_case(r, t, d, T.fmt_for(r, d, i)))
    c.conform(exes["typed"], "Typed.tla", cases, "objects restored from long sources")


def pad(r, ty, d):
    """unknown fields of a length that moves the others to where the window ends"""
    if ty["y"] in ("dyn", "two") and not ty["pos"] and d["t"] == "o":
        for _ in range(r.choice([1, 1, 2])):
            d["v"].insert(r.randrange(len(d["v"]) + 1), {"n": list(b"pad~"), "s": G.s_str("p" * r.choice([r.randrange(960, 1030), r.randrange(300, 2100)]))})
    elif ty["y"] in ("vec", "ht", "map", "list") and ty["e"]["y"] == "dyn":
        for c in d["c"]:
            if ty["y"] != "map" and r.random() < .5:
                pad(r, ty["e"], c["d"])


# ------------------------------------------------------------------- writing
def shape(r, ops):
    """pieces for a script of MC_Out"""
    root = []
    stack = [root]
    for k, n in enumerate(ops):
        nm = list(b"k%d" % k)
        if n == 0:
            e = []
            stack[-1].append({"n": nm, "t": r.choice("oa"), "e": e})
            stack.append(e)
        elif n < 0:
            stack.pop()
        else:
            stack[-1].append({"n": nm, "s": piece(r, max(0, n * 256 + r.randrange(-12, 5)))})
    return root


def piece(r, n):
    return G.s_str(bytes([r.randrange(97, 123)]) * n) if r.random() < .6 else G.s_bin(r.randbytes(n))


def random_shape(r, depth=3):
    out = []
    for k in range(r.choice([1, 2, 3, 5])):
        nm = list(b"f%d" % k)
        if depth and r.random() < .35:
            out.append({"n": nm, "t": r.choice("oa"), "e": random_shape(r, depth - 1)})
        else:
            out.append({"n": nm, "s": piece(r, r.choice([0, 3, 40, r.randrange(300), r.randrange(1000, 1040), r.randrange(1500)]))})
    return out


def put_op(r, e, styles):
    k = r.choice(["store", "tree", "node", "store", "pack"])
    o = {"k": k, "style": r.choice(styles), "e": e}
    if k == "pack":
        o["e"] = [{"n": [97], "s": G.s_bin(r.randbytes(r.choice([0, 5, 1000, r.randrange(1100)])))}, {"n": [98], "e": e}]
    return o


def writing(c):
    exe = c.build(["stream"])["stream"]
    m = c.model("MC_Out.tla", "MC_Out%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("model")
    s = m["scripts"]
    cases = []
    for i, x in enumerate(s if len(s) <= c.n(900, 15000) else r.sample(s, c.n(900, 15000))):
        init = list(b"0123456789" * r.choice([0, 1, 30, 300]))
        at = r.choice([0, len(init), r.randrange(len(init) + 1)])
        ops = [{"k": "store", "style": ["msg", "msg", "srl", "json", "jsonp"][i % 5], "e": shape(r, x["ops"])}]
        cases.append({"op": "out", "kind": ("str", "file")[i // 5 % 2], "init": init, "at": at, "same": False, "ops": ops})
    c.conform(exe, "StreamTrace.tla", cases, "histories of the segment enumerated by the model")
    r = c.rng("history")
    cases = []
    for i in range(c.n(260, 8000)):
        kind = ("str", "file", "pipe")[i % 3]
        styles = ["srl", "json", "jsonp"] + (["msg", "msg"] if kind != "pipe" else [])
        init = [r.randrange(65, 91) for _ in range(r.choice([0, 0, 7, 100, 1500, r.randrange(3000)]))]
        size = len(init)
        at = r.choice([0, size, r.randrange(size + 1)])
        ops = []
        for _ in range(r.choice([1, 2, 3, 4])):
            x = r.random()
            if x < .25:
                ops.append({"k": "text", "b": [r.randrange(97, 123) for _ in range(r.choice([1, 10, 1000, 1024, 1500]))]})
            elif x < .4 and kind != "pipe":
                ops.append({"k": "seek", "p": r.randrange(at + size + 1) if not ops else r.randrange(size + 1)} if size else {"k": "text", "b": [33]})
                if ops[-1]["k"] == "seek":
                    ops[-1]["p"] = min(ops[-1]["p"], size)
            else:
                ops.append(put_op(r, random_shape(r), styles))
        cases.append({"op": "out", "kind": kind, "init": init, "at": at, "same": r.random() < .5, "ops": ops})
    c.conform(exe, "StreamTrace.tla", cases, "histories of a stream", count=lambda x: len(x["ops"]))
    # positions that do not fit 16 bits
    cases = []
    for i in range(c.n(6, 40)):
        big = {"n": [98], "s": piece(r, r.choice([65536, 66000, 70000]) + r.randrange(2000))}
        if i % 3 != 2:
            # segments stay small unless there is something big
            big = {"n": [98], "t": "oa"[i % 2], "e": [{"n": list(b"b%d" % k), "s": piece(r, 1024 - r.randrange(200))} for k in range(80)]}
        e = [big] + random_shape(r) + [{"n": [99], "t": "oa"[i % 4 == 3], "e": random_shape(r) + [{"n": [100], "s": piece(r, r.randrange(1500))} for _ in range(2)]}]
        if i % 2:
            e = [{"n": [97], "t": "o", "e": e}] + random_shape(r)
        ops = [put_op(r, random_shape(r), ["msg"]), {"k": r.choice(["store", "tree", "node"]), "style": "msg" if i % 3 else "srl", "e": e}]
        cases.append({"op": "out", "kind": ("str", "file")[i % 2], "init": list(b"0123456789"), "at": r.choice([0, 5, 10]), "same": i % 4 == 0, "ops": ops})
    c.conform(exe, "StreamTrace.tla", cases, "long documents", count=lambda x: len(x["ops"]))


REGISTRY = {"C07": reading, "C08": writing}
NOTES = {
    "C07": ("MC_Window models the refill window over a file of positions against reading from memory; its histories are scaled to the code's window and replayed, and "
            "tokens are swept across the end of the window; StreamTrace/Typed demand the outcome of the buffer for every kind of stream",
            "exhaustive for small files, windows and histories in the model; in the code every token kind at positions around the first refills, random documents, and truncated or damaged ones"),
    "C08": ("MC_Out models segments, flushes and lengths filled in later against an ideal byte sequence; its histories are scaled to the code's segments and replayed; StreamTrace "
            "keeps the content and position of the stream through histories of writes and seeks",
            "exhaustive for small segments and histories in the model; sampled sizes around multiples of the segment in the code; streams on strings, files and pipes"),
}
