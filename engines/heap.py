"""The heap: C18."""

ALIGN = [1, 2, 4, 8, 16, 32, 64, 3, 24]
WIDTH = {24: 24, 3: 3}
SMALL = [0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 31, 32, 64, 100, 127, 128, 255, 256, 257, 496, 500, 511, 512, 513, 900, 1023, 1024, 2000, 4096]
LARGE = [65535, 65536, 65537, 100000, 131072, 262143, 262144, 262145, 300000, 600000]


class History:
    """Keeps track of what is live."""

    def __init__(self, heaps):
        self.heaps, self.ops, self.live = heaps, [], {}

    def add(self, o):
        self.ops.append(o)
        i = len(self.ops)
        if o["op"] in ("get", "new"):
            w = WIDTH.get(o["y"], o["y"])
            if "f" not in o:
                self.live[i] = [o["h"], w * o.get("n", 1)]
        elif o["op"] == "put":
            if "f" not in o:
                del self.live[o["b"]]
        elif o["op"] == "cut":
            self.live[o["b"]][1] = o["n"]
        elif o["op"] in ("clr", "dst", "mov", "mvc"):
            for b in [b for b, x in self.live.items() if x[0] == o["h"]]:
                del self.live[b]
            for x in self.live.values():
                if x[0] == o.get("u"):
                    x[0] = o["h"]

    def case(self):
        return {"heaps": self.heaps, "ops": self.ops}


def random_history(r, n, large):
    t = History(r.choice([1, 1, 2]))
    sizes = SMALL + LARGE if large else SMALL if r.random() < .6 else r.sample(SMALL, 4)
    mean = r.choice([.2, .4, .5])
    aligns = ALIGN if r.random() < .6 else r.sample(ALIGN, 2)
    fails = r.random() < .3
    while len(t.ops) < n:
        h = r.randrange(t.heaps) + 1
        x = r.random()
        if x < 1 - mean or not t.live:
            o = {"op": "get", "h": h, "y": r.choice(aligns)}
            o["n"] = max(0, r.choice(sizes) + r.choice([0, 0, 0, -1, 1])) // WIDTH.get(o["y"], o["y"])
            if r.random() < .3:
                o["n"] = r.randrange(4)
            if r.random() < .2:
                o = {"op": "new", "h": h, "y": r.choice(aligns)}
            if fails and r.random() < .2:
                o["f"] = r.randrange(1, 4)
            # an operation that may fail is forgotten: its block stays live and is checked, but not used again
            t.add(o)
        elif x < 1 - mean * .1:
            b = r.choice(list(t.live)) if r.random() < .6 else max(t.live)
            if r.random() < .8 or t.live[b][1] < 1:
                t.add({"op": "put", "h": t.live[b][0], "b": b})
            else:
                t.add({"op": "cut", "h": t.live[b][0], "b": b, "n": r.randrange(t.live[b][1] + 1)})
        elif x < 1 - mean * .03:
            t.add({"op": "clr", "h": h})
        elif t.heaps == 2:
            t.add({"op": r.choice(["mov", "mvc"]), "h": h, "u": 3 - h})
        else:
            t.add({"op": "dst", "h": h})
    return t.case()


def scaled(r, ops):
    k = r.choice([1, 20, 40, 64, 100, 128, 170, 256, 300, 2000, 90000])
    wide = r.choice([4, 8, 16, 32, 64])
    prefix = r.choice([0, 0, 0, 1, 2, 5])
    t = History(2)
    for i in range(prefix):
        t.add({"op": "get", "h": 1, "y": 1, "n": r.choice([1, 100, 300, 511])})
    sizes = {0: 0, 1: k + r.choice([0, 0, 1, -1]) * (k > 1), 3: 3 * k + r.choice([0, 0, 1, 2, -1]) * (k > 1)}
    for o in ops:
        o = dict(o)
        if "b" in o:
            o["b"] += prefix
        if o["op"] == "get":
            o["n"] = sizes[o["n"]]
            if o["y"] == 4:
                o["y"] = wide
                o["n"] = (o["n"] + wide - 1) // wide
        if o["op"] == "cut":
            o["n"] = min(sizes[1], t.live[o["b"]][1])
        if "f" in o:
            o["f"] = r.randrange(1, 4)
        t.add(o)
    return t.case()


def usable(ops):
    """The block of an operation that fails in the model may exist in the implementation, and the reverse: do not refer to it."""
    f = {i + 1 for i, o in enumerate(ops) if "f" in o}
    return not any(o.get("b") in f for o in ops)


def heap(c):
    exe = c.build(["heap"])["heap"]
    m = c.model("MC_Heap.tla", "MC_Heap%s.cfg" % ("_deep" if c.thorough else ""))
    r = c.rng("model")
    s = [x["ops"] for x in m["scripts"] if usable(x["ops"])]
    n = c.n(4000, 60000)
    s = s if len(s) <= n else r.sample(s, n)
    c.conform(exe, "HeapTrace.tla", [scaled(r, x) for x in s], "histories enumerated by the model")
    r = c.rng("random")
    cases = [random_history(r, r.choice([10, 30, 100, 250]), r.random() < .1) for _ in range(c.n(600, 12000))]
    c.conform(exe, "HeapTrace.tla", cases, "random histories")


REGISTRY = {"C18": heap}
NOTES = {"C18": ("histories of allocations (also failing ones), returns, clears and moves, enumerated by TLC on a design model of the heap (MC_Heap: "
                 "live blocks and free memory never overlap) and random ones, are run in the code; every operation is a transition of HeapTrace, which "
                 "sees the intervals of all blocks and every change of their contents",
                 "exhaustive for 4 (thorough: 5) operations on two heaps with 3 sizes and 2 alignments in the model, replayed at several scales; "
                 "random histories of up to 250 operations with sizes across all capacity limits")}
