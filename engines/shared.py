"""Graphs of shared objects: C13."""
from vlib import gen as G

FIELDS = {"root": ["o", "w", "s", "b", "m", "pa", "i", "in", "ou"], "o": ["o", "w", "s", "b", "m"], "pa": ["o"], "pb": ["b", "w"], "pc": [], "s": [], "i": [], "n": [], "u": []}
ELEM = {"o": ["o"], "w": ["o"], "m": ["o"], "s": ["s"], "b": ["pa", "pb", "pc"], "pa": ["pa"], "i": ["i"], "in": ["n"], "ou": ["u"]}
IDS = [{"pa": b"A", "pb": b"PB", "pc": b"C with two bases"}, {"pa": b"A of the other kind", "pb": b"PB1", "pc": b"C1"}]


def elem(kind, field):
    return ELEM["b"] if kind == "pb" and field == "w" else ELEM[field]


def scalar(r, k):
    if k in ("s", "pb"):
        return G.s_str(G.text(r)) if r.random() < .95 else G.s_str(G.text_of_size(r, r.choice(G.BIG_LENGTHS), .97))
    return G.s_int(r.randrange(-2 ** 31, 2 ** 31) if k in ("pa", "i") else r.choice([r.randrange(100), r.randrange(-2 ** 63, 2 ** 63)]))


def graph(r, n, poly, dense, cyclic=False):
    ks = ["root"] + [r.choice(["o", "o", "o", "o", "s", "s", "i", "i", "n", "u"] + (["pa", "pb", "pc", "o"] if poly else [])) for _ in range(n)]
    g = [{"k": k, "v": scalar(r, k) if k != "root" else 0, "f": [[] for _ in FIELDS[k]]} for k in ks]
    def link(x, y, weak):
        """a reference to object y, somewhere among those of x"""
        fs = [i for i, f in enumerate(FIELDS[ks[x]]) if ks[y] in elem(ks[x], f) and (weak or f != "w")]
        if not fs:
            return False
        i = r.choice(fs)
        l, f_is_m = g[x]["f"][i], FIELDS[ks[x]][i] == "m"
        if f_is_m and len(l) >= 9:
            return False
        l.insert(r.randrange(len(l) + 1), y)
        return True
    # an object that is the first member of another one
    taken = set()
    for y in range(1, n + 1):
        if ks[y] == "n":
            of = r.choice([0] + [z for z in range(1, y) if ks[z] == "u" and z not in taken])
            taken.add(of)
            g[y]["of"] = of
            if of:
                g[y]["v"] = g[of]["v"]
    # every object is held by one before it
    for y in range(1, n + 1):
        xs = list(range(y))
        r.shuffle(xs)
        if not any(link(x, y, False) for x in xs):
            raise AssertionError
    for _ in range(r.choice([0, 1, n, dense * n])):
        y = r.randrange(1, n + 1) if n else 0
        if y:
            link(r.randrange(n + 1 if cyclic else y), y, True)
    return g


def temps(r):
    return {"temps": [[r.randrange(0, 40000) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.choice([1, 2, 3, 6]))], "how": r.choice(["insert", "source", "store", "pack"]), "style": r.choice(STYLES)}


STYLES = ["srl", "msg", "json", "jsonp"]


def history(r, n, poly):
    ops, held = [], False
    while len(ops) < n:
        k = r.choice(["store", "pack", "load", "source", "insert", "restore", "unpack"] + ["paste", "unwrap", "pieces"] * (3 if held else 0))
        o = {"k": k, "style": r.choice(STYLES), "via": r.choice(["buf", "stream", "drip"]), "other": not poly and r.random() < .3}
        ops.append(o)
        held = k in ("load", "source", "insert") or held and k not in ("pack", "restore", "unpack")
    return ops


def case(v, g, ops):
    types = [{"k": k, "id": list(i)} for k, i in IDS[v].items()]
    return {"v": v, "g": g, "types": types, "ops": ops}


def from_model(r, x):
    n = len(x["kids"])
    # the field the references are in
    p = r.choice(["o", "m", "b"])
    kind = "pb" if p == "b" else "o"
    g = [{"k": "root", "v": 0, "f": [[] for _ in FIELDS["root"]]}]
    g[0]["f"][FIELDS["root"].index(p)] = x["root"]
    for i in range(n):
        o = {"k": kind, "v": scalar(r, kind), "f": [[] for _ in FIELDS[kind]]}
        o["f"][FIELDS[kind].index(p)] = x["kids"][i]
        g.append(o)
    poly = p == "b"
    ops = []
    for k in x["ops"]:
        k = {"store": r.choice(["store", "store"]), "load": r.choice(["load", "source", "insert"]), "paste": r.choice(["paste", "unwrap", "pieces"]), "direct": r.choice(["restore", "unpack"])}[k]
        ops.append({"k": k, "style": r.choice(STYLES), "via": r.choice(["buf", "stream", "drip"]), "other": not poly and r.random() < .3})
    return case(r.randrange(2), g, ops)


def sharing(c):
    exe = c.build(["shared"])["shared"]
    m = c.model("MC_Shared.tla", "MC_Shared%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("model")
    s = m["scripts"]
    s = s if len(s) <= c.n(1500, 20000) else r.sample(s, c.n(1500, 20000))
    c.conform(exe, "SharedTrace.tla", [from_model(r, x) for x in s], "graphs and histories enumerated by the model", count=lambda x: len(x["ops"]))
    r = c.rng("random")
    cases = []
    for i in range(c.n(700, 20000)):
        poly = r.random() < .6
        g = graph(r, r.choice([0, 1, 2, 3, 5, 8, 12, 20]), poly, r.choice([1, 2, 3]), r.random() < .5)
        cases.append(case(r.randrange(2), g, history(r, r.choice([1, 3, 6, 10]), poly)))
    for i in range(c.n(10, 200)):
        # many objects
        n = r.choice([60, 130, 200, 300]) if i % 2 else r.choice([290, 400, 700])
        g = graph(r, n, False, 1)
        ops = history(r, 2, False)
        ops.insert(r.choice([0, 2]), {"k": r.choice(["restore", "unpack"]), "style": r.choice(STYLES), "via": r.choice(["buf", "stream"]), "other": False})
        cases.append(case(r.randrange(2), g, ops))
    c.conform(exe, "SharedTrace.tla", cases, "random graphs and histories", count=lambda x: len(x["ops"]))
    r = c.rng("temps")
    c.conform(exe, "SharedTrace.tla", [temps(r) for _ in range(c.n(100, 1000))], "short-lived objects")


REGISTRY = {"C13": sharing}
NOTES = {
    "C13": ("MC_Shared models the tables from objects to keys and back through histories of operations on one Tree; its graphs and histories are replayed, SharedTrace.tla demands "
            "after every operation that the references met in the document or the restored objects are those of the graph (Graph.tla)",
            "exhaustive for graphs of two (thorough: three) objects and histories of three operations in the model; random graphs, acyclic and cyclic, of up to 700 objects and histories of up to 10 operations in the code"),
}
