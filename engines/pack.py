"""Packing and unpacking: C22."""
from vlib import gen as G
from engines import typed as T
from engines.text import PAIRS

# the types of the slots, as in harness/pack_*.cpp
GROUPS = [("i64", "s8", "vec.i32", "dyn"), ("f64", "map.s8.dyn", "bin", "s16"), ("u8", "pair.i32", "list.s8", "bool"),
          ("a8", "ht.i32", "tup.f64", "set.s8"), ("dyn", "two", "vec.dyn", "vec.vec.i32"), ("i32", "f32", "s32", "u64")]
LEAF = [t for t in T.LEAFS]


def leaf_plan(r, ty):
    """user types have fields of simple types here"""
    if ty["y"] in ("dyn", "two"):
        return T.plan(r, ty["y"], 0, True)
    if "e" in ty:
        ty["e"] = leaf_plan(r, ty["e"])
    return ty


def item_names(r, n):
    if r.random() < .25:
        p = [x.encode() for x in r.choice(PAIRS)]
        out = p[:n]
    else:
        out = []
    while len(out) < n:
        x = bytes(G.name(r, empty=0, big=.02))
        if x and x not in out and b"\0" not in x:
            out.append(x)
    r.shuffle(out)
    return out


def case(r, g, order, asks):
    tys = [leaf_plan(r, T.typ(r, t, 0, True)) for t in GROUPS[g]]
    vals = [T.value(r, t, True, .04) for t in tys]
    nm = item_names(r, 5)
    return {"g": g, "tys": tys, "vals": vals, "order": order, "names": [list(nm[i]) for i in order],
            "styles": ["srl", "msg", "json" if r.random() < .5 else "jsonp"],
            "asks": [selection(r, a, order, nm) for a in asks]}


def selection(r, a, order, nm):
    """a: slots, 4 for a name that was not packed"""
    free = [i for i in range(4) if i not in a]
    i, n = [], []
    for x in a:
        i.append(free.pop(r.randrange(len(free))) if x == 4 else x)
        n.append(list(nm[x]))
    return {"i": i, "n": n}


def packing(c):
    exe = c.build(["pack"])["pack"]
    m = c.model("MC_Pack.tla", "MC_Pack%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("model")
    by = {}
    for x in m["scripts"]:
        o = tuple(x["order"])
        by.setdefault(o, []).append(x["asks"])
    n = len(GROUPS)
    cases = []
    slots = 4 if c.thorough else 3
    for o in sorted(by):
        asks = by[o]
        r.shuffle(asks)
        for at in range(0, len(asks), 16):
            # the slots of the model are any of the group
            mp = r.sample(range(4), slots) + [4] if slots < 4 else [0, 1, 2, 3, 4]
            cases.append(case(r, len(cases) % n, [mp[x - 1] for x in o], [[mp[x - 1] for x in a] for a in asks[at:at + 16]]))
    if not c.thorough and len(cases) > 120:
        cases = r.sample(cases, 120)
    c.conform(exe, "PackTrace.tla", cases, "selections enumerated by the model", count=lambda x: len(x["asks"]))
    r = c.rng("random")
    cases = []
    for i in range(c.n(300, 8000)):
        order = r.sample(range(4), r.choice([0, 1, 2, 3, 4, 4, 4]))
        asks = []
        for _ in range(r.choice([2, 4, 8])):
            pool = list(order) + ([4] if r.random() < .2 else []) + ([r.randrange(4)] if r.random() < .1 else [])
            a = r.sample(pool, r.randrange(len(pool) + 1))
            if len(set(a)) == len(a) and len(a) <= 4:
                asks.append(a)
        cases.append(case(r, r.randrange(n), order, asks))
    c.conform(exe, "PackTrace.tla", cases, "random selections", count=lambda x: len(x["asks"]))


REGISTRY = {"C22": packing}
NOTES = {
    "C22": ("MC_Pack models the lookup of names in a source read once against a table of names; its selections are replayed with items of 24 types; PackTrace.tla demands "
            "that all ways of unpacking have the one outcome prescribed by Types.tla, and that the packed document is the one of a node",
            "all arrangements of up to 3 (thorough: 4) packed items and of up to 4 names asked for, one of them not packed; random values; six groups of four types"),
}
