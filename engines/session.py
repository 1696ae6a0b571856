"""Histories of operations, failing ones among them, on the same instances: C16."""
from vlib import gen as G

NPARSERS = 8        # two of each: srl, msg, json, json on one line
BIG = 70000


def i32(r): return r.choice([0, 1, -1, 127, 128, -2 ** 31, 2 ** 31 - 1, r.randrange(-2 ** 31, 2 ** 31)])
def i64(r): return r.choice([0, 1, 300, -2 ** 62, 2 ** 63 - 1, r.randrange(-2 ** 63, 2 ** 63)])


def dbl(r):
    d = G.fp(r)
    return 0. if d == 0 else d


def text(r, big):
    if r.random() < big:
        return G.s_str(G.text_of_size(r, r.choice([1000, 1023, 1024, 1025, 3000, 5000]), .95))
    return G.s_str(G.text(r).replace("\0", "0"))


def thing(r, depth=2, trouble=0., big=.02):
    """trouble: probability that user code fails somewhere, or that it isn't stored as it will be asked for"""
    same = int(r.random() < .5)
    p = G.s_int(i64(r))
    o = {"a": G.s_int(i64(r)), "s": text(r, big), "w": text(r, big), "p": p, "q": p if same else G.s_int(i64(r)), "same": same, "b": r.randrange(1000), "bad": 0,
         "v": [G.s_int(i32(r)) for _ in range(r.choice([0, 1, 3, 20]))],
         "kids": [thing(r, depth - 1, 0, big) for _ in range(r.choice([0, 1, 1, 2, 3]))] if depth > 0 else [],
         "m": [G.s_int(i64(r)) for _ in range(r.choice([0, 1, 3, 9]))], "part": G.s_int(i32(r)),
         "d": G.s_fp(dbl(r)), "x": G.s_bin(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 8, 9, 100]))))}
    if trouble and r.random() < trouble:
        x = o
        while x["kids"] and r.random() < .7:
            x = r.choice(x["kids"])
        if r.random() < .6:
            x["b"] = r.choice([1001, 1002, 1003, 1003])
        else:
            x["bad"] = r.randrange(1, 5)
    return o


def troubled(o): return o["b"] > 1000 or o["bad"] or any(map(troubled, o["kids"]))


def obj(r, trouble=0., ty=None):
    ty = ty or r.choice(["thing"] * 6 + ["ints", "num"])
    o = thing(r, r.choice([0, 1, 2]), trouble) if ty == "thing" else [G.s_int(i32(r)) for _ in range(r.choice([0, 2, 400]))] if ty == "ints" else G.s_int(i64(r))
    return {"ty": ty, "o": o}


def clean(d): return d["ty"] != "thing" or not troubled(d["o"])


def op(r, k, t, fail):
    o = {"k": k, "t": t, "clean": True}
    if k in ("insert", "clear", "move"):
        if k == "insert":
            o.update(n=list(G.name(r, empty=.1)), s=r.choice([G.s_int(i64(r)), G.s_str(G.text(r)), G.s_null(), G.s_bool(True), G.s_fp(dbl(r)), G.s_bin(bytes(r.randrange(256) for _ in range(r.randrange(30))))]))
        if k == "move":
            o["new"] = r.randrange(2)
        return o
    o.update(p=r.randrange(NPARSERS), via=r.choice(["buf", "stream", "drip"]), at=0)
    def fault():
        # the stream fails somewhere
        o.update(via="fault", at=r.choice([0, 1, 5, 100, r.randrange(2000), 10 ** 6]), clean=False)
    if k in ("load", "restore", "unpack"):
        o["obj"] = obj(r, .5 * fail, "thing" if k == "unpack" else None)
        o.update(cut=-1, flips=[])
        if o["obj"]["ty"] == "thing":
            tame(o["obj"]["o"])       # it got stored, its restoring fails
        x = r.random()
        o["clean"] = k == "load" or clean(o["obj"])
        if fail and x < .3:
            o.update(cut=r.choice([0, 1, 2, 3, r.randrange(60), r.randrange(600)]), clean=False)
        elif fail and x < .5:
            o.update(flips=[[0 if r.random() < .2 else r.randrange(10 ** 6), r.choice([0, 255, 0x22, 0x7b, 0x5d, 0x80, 0x42, 0x82, r.randrange(256)])] for _ in range(r.choice([1, 1, 2, 10]))], clean=False)
        elif fail and x < .6:
            fault()
        if k != "load":
            o["ty"] = o["obj"]["ty"] if k == "unpack" or r.random() < .85 else r.choice(["thing", "ints", "num"])
            if k == "unpack":
                o["ty"] = r.choice(["thing", "other"])
            if k == "unpack" or o["ty"] != o["obj"]["ty"]:
                o["clean"] = False
    elif k in ("store", "pack", "lobj"):
        o["obj"] = obj(r, .5 * fail, "thing" if k == "pack" else None)
        if o["obj"]["ty"] == "thing" and has_thrower(o["obj"]["o"]):
            o["clean"] = False
        if fail and k != "lobj" and r.random() < .1:
            fault()
    elif k == "write":
        if r.random() < .4:
            o["sub"] = r.randrange(10 ** 6)
        if fail and r.random() < .1:
            fault()
    elif k == "paste":
        o.update(ty=r.choice(["thing"] * 4 + ["ints", "num"]), clean=False)
    return o


def has_thrower(o): return o["b"] in (1001, 1002) or any(map(has_thrower, o["kids"]))
def tame(o):
    if o["b"] in (1001, 1002):
        o["b"] = 1003
    for x in o["kids"]:
        tame(x)


KINDS = ["load", "restore", "unpack", "store", "pack", "lobj", "write", "paste", "insert", "clear", "move"]
WEIGHTS = [4, 5, 3, 5, 3, 3, 4, 5, 2, 1, 1]


def history(r, n):
    fail = r.choice([0, .5, 1, 1])
    return {"ops": [op(r, r.choices(KINDS, WEIGHTS)[0], int(r.random() < .25), fail) for _ in range(n)]}


def from_model(r, ops):
    """the position of the failure decides about what fails, and where"""
    out = []
    for m in ops:
        k, f = m["k"], m["fail"]
        if k == "edit":
            out.append(op(r, "insert", 0, 0))
            continue
        if k in ("load", "restore"):
            k = k if k == "load" else r.choice(["restore", "restore", "unpack"])
        x = op(r, k, 0, 0)
        x["p"] = 2 * r.choice([0, 1, 2, 3]) + m["p"] - 1
        if "obj" in x and k != "unpack" and x["obj"]["ty"] != "thing":
            x["obj"] = obj(r, 0, "thing")
            if k == "restore":
                x.update(ty="thing", clean=True)
        if f:
            x["clean"] = False
            how = r.choice(["user", "source", "stream"]) if k in ("load", "restore", "unpack") else r.choice(["user", "user", "stream"]) if k in ("store", "pack") else "user" if k == "lobj" else "stream"
            if how == "user":
                o = x["obj"]["o"]
                for _ in range(f % 3):
                    if o["kids"]:
                        o = o["kids"][-1 if f > 3 else 0]
                o["b" if r.random() < .7 else "bad"] = 0
                if r.random() < .7 or k not in ("restore", "unpack"):
                    o["b"] = 1003 if k in ("restore", "unpack", "load") else 1001 if f < 3 else 1002
                else:
                    o["bad"] = 1 + f % 4
            elif how == "source":
                x["cut"] = [0, 0, 1, 5, 20, 60, 120][f]
            else:
                x.update(via="fault", at=[0, 0, 1, 5, 30, 200, 1100][f])
        out.append(x)
        if r.random() < .4:
            # does it hold what it should?
            out.append(op(r, r.choice(["write", "paste"]), 0, 0))
    return {"ops": out}


def session(c):
    exe = c.build(["session"])["session"]
    m = c.model("MC_Session.tla", "MC_Session%s.cfg" % ("_deep" if c.thorough else ""))
    s, r = m["scripts"], c.rng("model")
    s = s if len(s) <= c.n(1200, 12000) else r.sample(s, c.n(1200, 12000))
    c.conform(exe, "SessionTrace.tla", [from_model(r, x["ops"]) for x in s], "histories enumerated by the model", count=lambda x: len(x["ops"]))
    r = c.rng("random")
    c.conform(exe, "SessionTrace.tla", [history(r, r.choice([2, 4, 8, 16, 30])) for _ in range(c.n(600, 15000))], "random histories", count=lambda x: len(x["ops"]))


def threads(c):
    m = c.model("MC_Threads.tla", "MC_Threads%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("model")
    progs = [x["th"] for x in m["scripts"]]
    progs = [p for _, p in sorted({str(p): p for p in progs}.items())]
    progs = progs if len(progs) <= c.n(150, 1500) else r.sample(progs, c.n(150, 1500))
    for v in ("tsan", "asan"):
        exe = c.build(["threads"], v)["threads"]
        cases = []
        for p in progs:
            # the same operations of a thread in each format, with failures
            cases.append({"th": [{"ops": [op(r, k, 0, r.choice([0, 0, 1])) for k in t for _ in range(2)]} for t in p for _ in range(2)]})
        c.conform(exe, "ThreadsTrace.tla", cases, "programs of the model (%s)" % v, count=lambda x: len(x["th"]))
        r = c.rng("random" + v)
        cases = []
        for _ in range(c.n(120, 3000)):
            n = r.choice([2, 2, 3, 4, 8])
            h = history(r, r.choice([4, 8, 16]))
            # the same, or all different
            cases.append({"th": [h if r.random() < .3 else history(r, r.choice([4, 8, 16])) for _ in range(n)]})
        c.conform(exe, "ThreadsTrace.tla", cases, "random histories (%s)" % v, count=lambda x: len(x["th"]))


REGISTRY = {"C16": session, "C25": threads}
NOTES = {
    "C25": ("MC_Threads models threads with documents of their own whose operations interleave step by step, and shows that nothing they have in common is written; its programs and random histories run in "
            "up to eight threads at once, under ThreadSanitizer and AddressSanitizer. ThreadsTrace.tla takes the operations of all threads in the order in which they were completed and demands of each what its "
            "own thread's history calls for",
            "exhaustive for two threads in the model; the schedules of the code are those which happen to occur, ThreadSanitizer judges the accesses by happens-before and so beyond the schedule that was seen"),
    "C16": ("MC_Session models a Tree and its parsers through operations that may fail before every token, and what is left behind; its histories are replayed. SessionTrace.tla demands that every operation "
            "comes to what it comes to with new instances (status, bytes, objects) and keeps account of the documents held",
            "exhaustive for histories of three (thorough: four) operations failing anywhere in the model; random histories of up to 30 operations on two Trees and eight parsers in the code, with malformed "
            "sources, mismatching types, exceptions of user code and of streams; the document held after an operation which failed, and after restoring directly, is not promised"),
}
