"""The hash table: C17."""


def op(r, n_tables, nkeys, hist):
    o = {"op": r.choices(list(WEIGHTS), list(WEIGHTS.values()))[0], "t": r.randrange(n_tables) + 1}
    k = o["op"]
    key = lambda: r.randrange(nkeys)
    if k in ("ins", "ups", "set"):
        o.update(k=key(), v=r.randrange(1000))
    elif k in ("get", "rem", "ext"):
        o["k"] = key()
    elif k == "rmif":
        o["ks"] = sorted(r.sample(range(nkeys), r.randrange(min(nkeys, 12)))) if r.random() < .8 else list(range(nkeys))
    elif k == "brk":
        o["v"] = r.randrange(1, 12)
    elif k in ("mov", "mvc"):
        o["u"] = r.randrange(n_tables) + 1
        if o["u"] == o["t"]:
            return None
    elif k == "new":
        o.update(b=r.choice([0, 1, 2, 7, 64]), lf=r.choice(LF))
    return o


LF = [1, 3, 10, 10, 40]
WEIGHTS = {"ins": 30, "ups": 8, "get": 14, "set": 3, "rem": 10, "ext": 6, "rmif": 1.5, "each": 1.5, "brk": 1, "it": 1.5,
           "clr": .6, "mov": .6, "mvc": .4, "new": .3}
TYPES = ["str", "few", "int", "i32", "same", "high"]


def tables(r, n):
    return [{"b": r.choice([0, 1, 1, 2, 3, 5, 64]), "lf": r.choice(LF)} for _ in range(n)]


def random_history(r, n, nkeys):
    nt = r.choice([1, 1, 2, 3])
    ops = [o for o in (op(r, nt, nkeys, None) for _ in range(n)) if o]
    return {"y": r.choice(TYPES), "tables": tables(r, nt), "ops": ops}


def growth(r):
    """fill, look everything up, remove some, fill again"""
    n = r.choice([11, 21, 41, 70, 130, 300])
    ks = list(range(n))
    r.shuffle(ks)
    ops = []
    for i, k in enumerate(ks):
        ops.append({"op": "ins", "t": 1, "k": k, "v": k})
        if r.random() < .3:
            ops.append({"op": "get", "t": 1, "k": r.choice(ks[:i + 1])})
        if r.random() < .1:
            ops.append({"op": "rem", "t": 1, "k": r.choice(ks[:i + 1])})
    ops += [{"op": "get", "t": 1, "k": k} for k in range(n + 2)]
    ops += [{"op": "each", "t": 1}, {"op": "rmif", "t": 1, "ks": sorted(r.sample(ks, n // 2))}, {"op": "it", "t": 1}]
    ops += [{"op": "ups", "t": 1, "k": k, "v": k + 1} for k in r.sample(ks, n // 2)] + [{"op": "each", "t": 1}]
    ops += [{"op": "clr", "t": 1}, {"op": "it", "t": 1}, {"op": "get", "t": 1, "k": 0}] if r.random() < .5 else []
    ops += [{"op": "ins", "t": 1, "k": k, "v": k} for k in ks] + [{"op": "it", "t": 1}]
    return {"y": r.choice(TYPES), "tables": tables(r, 1), "ops": ops}


def table(c):
    exe = c.build(["htable"])["htable"]
    m = c.model("MC_Table.tla", "MC_Table%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("model")
    s = m["scripts"]
    n = c.n(3000, 60000)
    s = s if len(s) <= n else r.sample(s, n)
    cases = []
    for i, x in enumerate(s):
        # the implementation grows at ten entries: start shortly before that
        y = r.choice(TYPES)
        # others that do not interfere
        pre = [{"op": "ins", "t": 1, "k": 100 + j, "v": j} for j in range(r.choice([0, 7, 8, 9, 10]))]
        post = [{"op": o, "t": t} for t in (1, 2) for o in ("each", "it")]
        cases.append({"y": y, "tables": [{"b": 1, "lf": 10}, {"b": 1, "lf": 10}], "ops": pre + x["ops"] + post})
    c.conform(exe, "TableTrace.tla", cases, "histories enumerated by the model")
    r = c.rng("random")
    cases = [random_history(r, r.choice([20, 60, 200]), r.choice([3, 8, 30, 200])) for _ in range(c.n(400, 8000))]
    cases += [growth(r) for _ in range(c.n(40, 600))]
    c.conform(exe, "TableTrace.tla", cases, "random histories")


REGISTRY = {"C17": table}
NOTES = {"C17": ("histories of operations, enumerated by TLC on a design model of the table (MC_Table refines TableApi) and random ones across "
                 "several redistributions, are run in the code with six kinds of keys and hash functions; every operation is a transition of TableTrace",
                 "exhaustive for 4 (thorough: 5) operations on two tables with 3 keys in the model; random histories of up to 2000 operations")}
