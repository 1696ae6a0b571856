"""Generators of documents and encoders with random legal choices.

They only provide inputs: what is right is decided by the specification."""
import math, struct

INTS = sorted({v for k in (0, 1, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 20, 21, 24, 28, 31, 32, 33, 35, 42, 49, 52, 53, 54, 56, 62, 63, 64)
               for d in (-2, -1, 0, 1, 2) for v in (2 ** k + d, -(2 ** k) + d)
               if -(2 ** 63) < v < 2 ** 64} | {0, 100, -100, 10 ** 9, 10 ** 18, 10 ** 19, 9999999999, -32, -33, -31})
FPS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1.5, 3.14159, 1e-5, 1e5, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 1e100, 1e-100,
       1e308, -1e308, 1.7976931348623157e308, 2.2250738585072014e-308, 2.225073858507201e-308, 5e-324, 1e-323, 4.9e-322,
       123456.789, 1234567890123456.7, 0.3, 2.0 / 3, 1 / 3, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 2.0 ** 31, -2.0 ** 31,
       9007199254740993.0, 3.4028234663852886e38, 3.4028235677973366e38, 1.401298464324817e-45, 1.1754943508222875e-38, 7e-46,
       16777216.0, 16777217.0, 0.1 + 0.2, 1e-7, 1.25, 100.0, 1000000.0, 12345678.0, 1e10, 4294967296.0, 4294967295.5, 255.0, 256.0]


def fbytes(d):
    return list(struct.pack(">d", d))


def s_null(): return {"k": "n", "g": 0, "m": []}
def s_bool(b): return {"k": "b", "g": 0, "m": [int(b)]}
def s_int(v):
    m = abs(v)
    return {"k": "i", "g": int(v < 0), "m": list(m.to_bytes((m.bit_length() + 7) // 8, "little"))}
def s_fp(d): return {"k": "f", "g": 0, "m": fbytes(d)}
def s_str(b): return {"k": "s", "g": 0, "m": list(b if isinstance(b, bytes) else b.encode())}
def s_bin(b): return {"k": "x", "g": 0, "m": list(b)}


CP_EDGES = [0x20, 0x21, 0x22, 0x27, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000,
            0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10ffff, 0x2028, 0x0a, 0x09, 0x0d, 0x08, 0x0c, 0x01, 0x00, 0x1f, 0x0b, 0x1b]


def cp(r, ascii_bias=0.6):
    x = r.random()
    if x < ascii_bias:
        return r.randrange(0x20, 0x7f)
    if x < 0.85:
        return r.choice(CP_EDGES)
    while True:
        c = r.randrange(1, r.choice([0x80, 0x800, 0x10000, 0x110000]))
        if not 0xd800 <= c <= 0xdfff:
            return c


def text(r, n=None, ascii_bias=0.6):
    """n: number of code points"""
    if n is None:
        n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, r.randrange(0, 30), r.randrange(0, 60)])
    return "".join(chr(cp(r, ascii_bias)) for _ in range(n))


def text_of_size(r, n, ascii_bias=0.9):
    """UTF-8 bytes of exactly n bytes"""
    out = b""
    while len(out) < n:
        c = chr(cp(r, ascii_bias)).encode()
        if len(out) + len(c) <= n:
            out += c
    return out


LENGTHS = [0, 1, 7, 8, 9, 15, 16, 30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300]
BIG_LENGTHS = [1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 16383, 16384, 65533, 65534, 65535, 65536, 65537, 70000]


def scalar(r, finite=True, big=0.0):
    k = r.randrange(12)
    if k == 0:
        return s_null()
    if k == 1:
        return s_bool(r.random() < .5)
    if k <= 4:
        x = r.random()
        v = r.choice(INTS) if x < .6 else (r.randrange(-(2 ** 63) + 1, 2 ** 64) if x < .8 else r.randrange(-40000, 40000))
        return s_int(v)
    if k <= 7:
        return s_fp(fp(r, finite))
    if k <= 9:
        if r.random() < big:
            return s_str(text_of_size(r, r.choice(BIG_LENGTHS), .97))
        if r.random() < .25:
            return s_str(text_of_size(r, r.choice(LENGTHS)))
        return s_str(text(r))
    n = r.choice(BIG_LENGTHS) if r.random() < big else r.choice(LENGTHS) if r.random() < .3 else r.randrange(0, 20)
    return s_bin(bytes(r.randrange(256) for _ in range(n)))


def fp(r, finite=True):
    x = r.random()
    if not finite and x < .08:
        return r.choice([math.inf, -math.inf, math.nan])
    if x < .5:
        d = r.choice(FPS)
        return -d if r.random() < .3 else d
    if x < .6:
        return float(r.randrange(-10 ** 6, 10 ** 6)) / r.choice([1, 2, 4, 10, 100, 1000])
    if x < .7:
        return struct.unpack(">f", struct.pack(">I", r.randrange(2 ** 31) % 0x7f800000))[0]
    while True:
        d = struct.unpack(">d", struct.pack(">Q", r.randrange(2 ** 64)))[0]
        if math.isfinite(d):
            return d


PAIRS = [("8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"), ("7mohtcOFVz", "c1E51sSEyx"), ("gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"),
         ("6a5x-VbtXk", "f_2k7GG-4v"), ("pFuM83THhM-Qw8FI5FKo", ".jPx7rOtTDteKAwvfOEo")]      # their hashes are the same
NAMES = ["a", "b", "c", "id", "name", "field", "x_y", "eight_ch", "nine_char", "value", "scope_type", "A", "field_1", "field_2"]


TWIN = {a.encode(): b.encode() for p in PAIRS for a, b in (p, p[::-1])}


def pair(r):
    """two names with the same hash"""
    return [x.encode() for x in r.choice(PAIRS)]


def name(r, pool=None, big=0.0, empty=0.05):
    x = r.random()
    if x < empty:
        return b""
    if pool and x < .5:
        return r.choice(pool)
    if x < .75:
        return r.choice(NAMES).encode()
    if x < .75 + big:
        return text_of_size(r, r.choice(BIG_LENGTHS), .97)
    if x < .9:
        t = text(r, r.randrange(1, 12)).encode()
        return t or b"n"
    return text_of_size(r, r.choice(LENGTHS[1:]))


def doc(r, depth=3, width=6, finite=True, big=0.0, t=None, pool=None, empty=0.05):
    t = t or r.choice("oa")
    pool = pool if pool is not None else [name(r, empty=0) for _ in range(r.randrange(1, 5))] + (pair(r) if r.random() < .1 else [])
    d = {"t": t, "v": [], "c": []}
    def nm():
        # the names of array elements get lost on writing
        if t == "a" and r.random() < .8:
            return []
        return list(name(r, pool, big, empty))
    for _ in range(r.choice([0, 1, 2, r.randrange(0, width + 1)])):
        d["v"].append({"n": nm(), "s": scalar(r, finite, big)})
    if depth > 0:
        for _ in range(r.choice([0, 0, 1, 1, 2, r.randrange(0, max(1, width // 2) + 1)])):
            d["c"].append({"n": nm(), "d": doc(r, depth - 1, width, finite, big, None, pool, empty)})
    return d


def interleave(r, d):
    """values and nodes of a scope in an order that keeps the order of each"""
    seq = ["v"] * len(d["v"]) + ["c"] * len(d["c"])
    if "order" in d:
        seq = d["order"]
    elif r:
        r.shuffle(seq)
    i = j = 0
    for k in seq:
        if k == "v":
            yield "v", d["v"][i]["n"], d["v"][i]["s"]
            i += 1
        else:
            yield "c", d["c"][j]["n"], d["c"][j]["d"]
            j += 1


def is32(m):
    d = struct.unpack(">d", bytes(m))[0]
    if math.isnan(d):
        return False
    try:
        return struct.unpack(">f", struct.pack(">f", d))[0] == d
    except OverflowError:
        return False


# ---------------------------------------------------------------- Srl binary
def vlq(v, r=None):
    out = []
    while v >= 128:
        out.append(v & 127 | 128)
        v >>= 7
    out.append(v)
    if r and r.random() < .1 and len(out) < 9:
        for _ in range(r.randrange(1, min(3, 10 - len(out)) + 1)):
            out[-1] |= 128
            out.append(0)
    return out


def enc_srl(d, r):
    out, tab = [], []

    def head(flag, n, scope):
        if not n or scope != "o":
            # in arrays, and at the top, the bit is not examined
            out.append(flag)
            return
        n = bytes(n)
        if n in tab and r.random() < .9:
            out.append(flag | 2 | 4)
            out.extend(vlq(r.choice([i for i, x in enumerate(tab) if x == n]), r))
        else:
            out.append(flag | 2)
            out.extend(vlq(len(n), r))
            out.extend(n)
            tab.append(n)

    def scope(d, n, outer):
        head(64 if d["t"] == "o" else 128, n, outer)
        for kind, n, x in interleave(r, d):
            if kind == "c":
                scope(x, n, d["t"])
            else:
                k, m = x["k"], x["m"]
                if k == "n":
                    head(8, n, d["t"])
                elif k == "b":
                    head(1 | (64 if m[0] else 128), n, d["t"])
                elif k == "i":
                    head(1 | (8 if x["g"] else 0), n, d["t"])
                    out.extend(vlq(int.from_bytes(bytes(m), "little"), r))
                elif k == "f":
                    if is32(m) and r.random() < .7:
                        head(1 | 16, n, d["t"])
                        out.extend(struct.pack("<f", struct.unpack(">d", bytes(m))[0]))
                    else:
                        head(1 | 32, n, d["t"])
                        out.extend(reversed(m))
                else:
                    head(16 if k == "x" else 32, n, d["t"])
                    out.extend(vlq(len(m), r))
                    out.extend(m)
        out.append(0)
    scope(d, [], "")
    return out


# --------------------------------------------------------------- MessagePack
def enc_msg(d, r):
    out = []

    def be(v, w):
        out.extend(v.to_bytes(w, "big"))

    def pick(options):
        # mostly the shortest one
        return options[0] if r.random() < .6 else r.choice(options)

    def string(m):
        n = len(m)
        o = pick([x for x, lim in ((0, 32), (1, 256), (2, 65536), (4, 2 ** 32)) if n < lim])
        if o == 0:
            out.append(160 + n)
        else:
            out.append({1: 217, 2: 218, 4: 219}[o])
            be(n, o)
        out.extend(m)

    def integer(v):
        opts = []
        if 0 <= v < 128 or -32 <= v < 0:
            opts.append(("fix", 0))
        for w in (1, 2, 4, 8):
            if 0 <= v < 2 ** (8 * w):
                opts.append(("u", w))
            if -(2 ** (8 * w - 1)) <= v < 2 ** (8 * w - 1):
                opts.append(("i", w))
        k, w = pick(opts)
        if k == "fix":
            out.append(v & 255)
        else:
            out.append((204 if k == "u" else 208) + {1: 0, 2: 1, 4: 2, 8: 3}[w])
            be(v & (2 ** (8 * w) - 1), w)

    def scope(d):
        n = len(d["v"]) + len(d["c"])
        o = pick([x for x, lim in ((0, 16), (2, 65536), (4, 2 ** 32)) if n < lim])
        obj = d["t"] == "o"
        if o == 0:
            out.append((128 if obj else 144) + n)
        else:
            out.append((222 if obj else 220) + (o == 4))
            be(n, o)
        for kind, n, x in interleave(r, d):
            if obj:
                string(n)
            if kind == "c":
                scope(x)
                continue
            k, m = x["k"], x["m"]
            if k == "n":
                out.append(192)
            elif k == "b":
                out.append(195 if m[0] else 194)
            elif k == "i":
                v = int.from_bytes(bytes(m), "little")
                integer(-v if x["g"] else v)
            elif k == "f":
                if is32(m) and r.random() < .7:
                    out.append(202)
                    out.extend(struct.pack(">f", struct.unpack(">d", bytes(m))[0]))
                else:
                    out.append(203)
                    out.extend(m)
            elif k == "s":
                string(m)
            else:
                o = pick([x for x, lim in ((1, 256), (2, 65536), (4, 2 ** 32)) if len(m) < lim])
                out.append({1: 196, 2: 197, 4: 198}[o])
                be(len(m), o)
                out.extend(m)
    scope(d)
    return out


# ---------------------------------------------------------------------- JSON
SHORT = {0x22: '"', 0x5c: "\\", 0x2f: "/", 8: "b", 12: "f", 10: "n", 13: "r", 9: "t"}


def json_str(b, r, esc=.1):
    out = ['"']
    for ch in bytes(b).decode():
        c = ord(ch)
        must = c < 32 or c in (0x22, 0x5c)
        if not must and r.random() >= esc:
            out.append(ch)
        elif c in SHORT and r.random() < .7:
            out.append("\\" + SHORT[c])
        else:
            f = r.choice(["%04x", "%04X"])
            if c < 0x10000:
                out.append("\\u" + f % c)
            else:
                c -= 0x10000
                out.append("\\u" + f % (0xd800 + (c >> 10)) + "\\u" + r.choice(["%04x", "%04X"]) % (0xdc00 + (c & 0x3ff)))
    return "".join(out) + '"'


def json_num(s, r):
    if s["k"] == "i":
        v = int.from_bytes(bytes(s["m"]), "little")
        v = -v if s["g"] else v
        x = r.random()
        if x < .85:
            return str(v)
        if x < .9:
            return str(v) + ".0"
        if x < .95:
            return "%d%s" % (v, r.choice(["e0", "E0", "e+0", "e-0", "E+00", "e1", "e-1"]))
        return "%d.%s" % (v, "".join(r.choice("0123456789") for _ in range(r.randrange(1, 25))))
    d = struct.unpack(">d", bytes(s["m"]))[0]
    x = r.random()
    if x < .5:
        t = repr(d)
    elif x < .7:
        t = "%.*e" % (r.randrange(0, 25), d)
    elif x < .8 and abs(d) < 1e25:
        t = "%.*f" % (r.randrange(1, 25), d)
    elif x < .9:
        t = "%.17g" % d
    else:
        t = repr(d).replace("e", "E")
    if "inf" in t or "nan" in t:
        t = "1e5"
    v = float(t)
    if math.isinf(v):
        t = "1.5"
    return t


def json_exact(s):
    """a spelling that means the very number"""
    if s["k"] == "i":
        return ("-" if s["g"] else "") + str(int.from_bytes(bytes(s["m"]), "little"))
    d = struct.unpack(">d", bytes(s["m"]))[0]
    return repr(d) if math.isfinite(d) else "1e5"


def json_random_num(r):
    while True:
        t = "-" * (r.random() < .3)
        ni = r.choice([1, 1, 2, 5, 16, 17, 18, 19, 20, 21, 22, 30, 40])
        t += str(r.choice("123456789")) + "".join(r.choice("0123456789") for _ in range(ni - 1)) if r.random() < .8 else "0"
        if r.random() < .6:
            t += "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 16, 17, 18, 20, 25, 40])))
        if r.random() < .4:
            t += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.choice([0, 1, 2, 5, 10, 22, 23, 100, 290, 300, r.randrange(0, 320)]))
        if math.isfinite(float(t)):
            return t


B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def enc_json(d, r, ws=.25, esc=.1, rnd_num=.2, edge_ws=True, exact=False):
    import base64

    def w():
        if r.random() >= ws:
            return ""
        return "".join(r.choice(" \n\t\r") for _ in range(r.choice([1, 1, 2, 5, 20])))

    def value(s):
        k, m = s["k"], s["m"]
        if k == "n":
            return "null"
        if k == "b":
            return "true" if m[0] else "false"
        if k in "if":
            if exact:
                return json_exact(s)
            return json_random_num(r) if r.random() < rnd_num else json_num(s, r)
        if k == "s":
            return json_str(m, r, esc)
        return '"' + base64.b64encode(bytes(m)).decode() + '"'

    def scope(d):
        items = []
        for kind, n, x in interleave(r, d):
            v = scope(x) if kind == "c" else value(x)
            if d["t"] == "o":
                items.append(w() + json_str(n, r, esc) + w() + ":" + w() + v + w())
            else:
                items.append(w() + v + w())
        body = ",".join(items) if items else w()
        return ("{%s}" if d["t"] == "o" else "[%s]") % body
    t = scope(d)
    if edge_ws:
        t = w() + t + w()
    return list(t.encode())


ENC = {"srl": enc_srl, "msg": enc_msg, "json": enc_json}
FMTS = ["srl", "msg", "json"]
STYLES = {"srl": ["srl"], "msg": ["msg"], "json": ["json", "jsonp"]}
def fmt_of(style): return "json" if style.startswith("json") else style


def size(d):
    return 2 + sum(len(v["n"]) + len(v["s"]["m"]) + 3 for v in d["v"]) + sum(len(c["n"]) + size(c["d"]) for c in d["c"])


def jsonable(d):
    """no invalid UTF-8, which JSON cannot carry"""
    return True
