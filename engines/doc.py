"""The document API: C09, C10."""
import copy
from vlib import gen as G


def scope_at(d, p):
    for i in p:
        d = d["c"][i - 1]["d"]
    return d


def paths(d, p=()):
    yield list(p)
    for i, c in enumerate(d["c"]):
        yield from paths(c["d"], p + (i + 1,))


def count(d):
    return 1 + len(d["v"]) + sum(count(c["d"]) for c in d["c"])


class Mirror:
    """Follows the documents, so that paths and indices of the script exist."""
    def __init__(self, types):
        self.docs = [{"t": t, "v": [], "c": []} for t in types]

    def apply(self, o):
        k, ds = o["op"], self.docs
        d = o["d"] - 1
        if k == "new":
            ds[d] = {"t": o["t"], "v": [], "c": []}
        elif k == "clear":
            ds[d] = {"t": ds[d]["t"], "v": [], "c": []}
        elif k == "obj":
            ds[d] = copy.deepcopy(o["x"])
        elif k == "move":
            ds[d] = ds[o["e"] - 1]
            ds[o["e"] - 1] = {"t": "o", "v": [], "c": []}
        elif k == "wr":
            ds[d] = self.written(ds[o["e"] - 1])
        else:
            sc = scope_at(ds[d], o["p"])
            if k == "ins":
                sc["v"].append({"n": o["n"], "s": o["s"]})
            elif k == "insn":
                sc["c"].append({"n": o["n"], "d": {"t": o["t"], "v": [], "c": []}})
            elif k == "doc":
                sc["c"].append({"n": o["n"], "d": copy.deepcopy(o["x"])})
            elif k == "copy":
                sc["c"].append({"n": o["n"], "d": copy.deepcopy(scope_at(ds[o["e"] - 1], o["q"]))})
            elif k == "copyv":
                sc["v"].append({"n": o["n"], "s": scope_at(ds[o["e"] - 1], o["q"])["v"][o["i"] - 1]["s"]})
            else:
                l = sc[o["k"]]
                if k == "rmn":
                    i = next((i for i, x in enumerate(l) if x["n"] == o["n"]), None)
                else:
                    i = o["i"] - 1 if 1 <= o["i"] <= len(l) else None
                if i is not None:
                    del l[i]

    def written(self, d):
        f = (lambda n: n) if d["t"] == "o" else (lambda n: [])
        return {"t": d["t"], "v": [{"n": f(v["n"]), "s": v["s"]} for v in d["v"]],
                "c": [{"n": f(c["n"]), "d": self.written(c["d"])} for c in d["c"]]}


def strings_only(r):
    return {"t": "a", "v": [{"n": [], "s": G.s_str(G.text(r))} for _ in range(r.randrange(0, 6))], "c": []}


WEIGHTS = {
    "api":  dict(ins=10, insn=4, doc=3, copy=3, copyv=1, rmi=3, rmp=2, rmn=4, clear=.3, new=.2, move=.3, wr=.4, obj=.4,
                 val=3, node=2, get=4, tget=3, has=2, find=2, all=2, info=2),
    "copy": dict(ins=6, insn=1, doc=6, copy=10, copyv=4, rmi=2, rmp=1, rmn=2, clear=2.5, new=1.5, move=3, wr=3, obj=2.5,
                 val=.5, node=.5, get=.5, tget=.5, has=.5, find=.5, all=.5, info=.5),
    "again": dict(ins=10, insn=3, doc=2, copy=1, rmi=1, rmn=1, clear=4, obj=2, move=1, wr=.5, get=2, all=1, info=.5),
    "big":  dict(ins=40, insn=4, copy=.3, copyv=1, rmi=10, rmn=12, rmp=3, val=4, get=4, tget=4, find=1, all=.5, has=3, info=1),
}


def history(r, kind, n, limit=120):
    w = WEIGHTS[kind]
    types = [r.choice("oa") for _ in range(1 if kind == "big" else r.choice([1, 2, 2, 3]))]
    m = Mirror(types)
    pool = [G.name(r) for _ in range(r.choice([2, 3, 6]))] if kind != "big" else \
        [("k%d" % i).encode() for i in range(r.choice([40, 300]))]
    if r.random() < .3:
        # names that differ in one place only, or in their length
        base = G.text_of_size(r, r.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 200]), 1)
        pool = [base, base + b"x", base[:-1], base[:-1] + b"#", b"#" + base[1:], base + base, base + b"\0", b""]
    if r.random() < .25:
        pool = (pool[:1] if kind != "big" else pool) + G.pair(r)
    if kind == "again":
        # few, not so short: documents built up again after having been cleared
        pool = [G.text_of_size(r, r.choice([7, 8, 9, 12, 16, 30, 70]), 1) for _ in range(r.choice([1, 2, 4]))]
    pool = [list(p) for p in pool]
    ops = []
    for _ in range(n):
        op = r.choices(list(w), list(w.values()))[0]
        d = r.randrange(len(types)) + 1
        e = r.randrange(len(types)) + 1
        o = {"op": op, "d": d, "how": r.randrange(4)}
        if op in ("clear", "new", "obj"):
            if op == "new":
                o["t"] = r.choice("oa")
            if op == "obj":
                o["x"] = G.doc(r, 2, 5, False, 0, "o") if r.random() < .7 else strings_only(r)
        elif op in ("move", "wr"):
            if op == "move" and e == d:
                continue
            o["e"] = e
        else:
            ps = list(paths(m.docs[d - 1]))
            o["p"] = r.choice(ps) if r.random() < .7 else []
            sc = scope_at(m.docs[d - 1], o["p"])
            x = r.random()
            present = [i["n"] for i in sc["v"] + sc["c"]]
            o["n"] = r.choice(present) if present and x < .5 else list(G.TWIN.get(bytes(r.choice(present)), b"")) or r.choice(pool) if present and x < .6 else r.choice(pool) if x < .9 else list(G.name(r))
            o["enc"] = r.choice([8, 8, 8, 16, 32])
            if op == "ins":
                o["s"] = G.scalar(r, False, .01 if kind == "copy" else 0)
            elif op == "insn":
                o["t"] = r.choice("oa")
            elif op == "doc":
                o["x"] = G.doc(r, 2, 4, False, .02 if kind == "copy" else 0)
            elif op in ("copy", "copyv"):
                o["e"] = e
                o["q"] = r.choice(list(paths(m.docs[e - 1])))
                src = scope_at(m.docs[e - 1], o["q"])
                if op == "copyv":
                    if not src["v"]:
                        continue
                    o["i"] = r.randrange(len(src["v"])) + 1
                elif count(src) + count(m.docs[d - 1]) > limit:
                    continue
            else:
                o["k"] = r.choice("vc") if kind != "big" or r.random() < .1 else "v"
                o["rec"] = r.random() < .5
                o["by"] = r.choice("in")
                l = sc[o["k"]]
                o["i"] = r.choice([1, len(l), len(l) + 1, r.randrange(1, len(l) + 2)]) or 1
                if op == "rmn" and l and r.random() < .5:
                    o["n"] = r.choice(l)["n"]
        ops.append(o)
        if op in WRITES:
            m.apply(o)
    return {"types": types, "ops": ops}


WRITES = {"ins", "insn", "doc", "copy", "copyv", "rmi", "rmp", "rmn", "clear", "new", "move", "wr", "obj"}


def model_cases(c, r, n):
    m = c.model("MC_Node.tla", "MC_Node%s.cfg" % ("_deep" if c.thorough else ""), timeout=1500)
    s = m["scripts"]
    s = s if len(s) <= n else r.sample(s, n)
    out = []
    for x in s:
        ops = [dict(o, how=r.randrange(4), enc=r.choice([8, 8, 16, 32])) for o in x["ops"]]
        # what a reader sees afterwards
        for d in (1, 2):
            for o in ("info", "all"):
                ops.append({"op": o, "d": d, "p": [], "n": [], "k": "v", "rec": True, "how": 0})
            ops.append({"op": "all", "d": d, "p": [], "n": [], "k": "c", "rec": True, "how": 1})
        out.append({"types": ["o", "a"], "ops": ops})
    return out


def node_api(c):
    exe = c.build(["doc"])["doc"]
    r = c.rng("model")
    c.conform(exe, "NodeTrace.tla", model_cases(c, r, c.n(4000, 200000)), "histories enumerated by the model", count=lambda x: 1)
    r = c.rng("api")
    c.conform(exe, "NodeTrace.tla", [history(r, "api", r.choice([10, 30, 60])) for _ in range(c.n(500, 8000))], "random histories")
    r = c.rng("again")
    c.conform(exe, "NodeTrace.tla", [history(r, "again", r.choice([10, 30])) for _ in range(c.n(300, 4000))], "documents built again")
    r = c.rng("big")
    c.conform(exe, "NodeTrace.tla", [history(r, "big", c.n(150, 400), 10 ** 6) for _ in range(c.n(24, 200))], "histories of large documents")


def copies(c):
    exe = c.build(["doc"])["doc"]
    r = c.rng("model")
    c.conform(exe, "NodeTrace.tla", model_cases(c, r, c.n(4000, 200000)), "histories enumerated by the model")
    r = c.rng("copy")
    c.conform(exe, "NodeTrace.tla", [history(r, "copy", r.choice([10, 20, 40])) for _ in range(c.n(500, 8000))], "random histories")


REGISTRY = {"C09": node_api, "C10": copies}
_L = ("exhaustive over all histories of 4 (thorough: 5) operations on two documents in MC_Node, a design model with a heap "
      "of nodes whose invariants are checked; longer random histories beyond")
NOTES = {
    "C09": ("every operation of a history is run in the code and is one transition of NodeTrace: contents of all documents "
            "after mutations, answers of queries; histories enumerated by TLC and random ones", _L),
    "C10": ("as C09, with histories made of copies, moves, clears, reloads and destruction of the originals; "
            "all documents are compared after every operation, memory errors show up under AddressSanitizer", _L),
}
