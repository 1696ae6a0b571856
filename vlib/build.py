"""Builds the library and the drivers from /repo's working tree.

Everything goes to /verif/build/<variant>-<hash>, the hash covering the
sources of the library, the driver and the flags."""
import hashlib, os, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

VARIANTS = {
    "asan":  ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O2"],
    "tsan":  ["-O1", "-g1", "-fsanitize=thread"],
}
CXX = ["g++", "-std=c++17", "-DNDEBUG", "-w"]
CC = ["gcc", "-std=c99", "-DNDEBUG", "-w"]


class BuildError(Exception):
    pass


def _sources():
    out = []
    for top in ("include", "src/lib"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def _hash(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(s.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def _compile(src, obj, flags):
    with open(src) as f:
        first = f.readline()
    if first.startswith("// flags:"):
        flags = flags + first[9:].split()
    cc = CC if src.endswith(".c") else CXX
    tmp = obj + ".%d.tmp" % os.getpid()
    _run(cc + flags + ["-I" + REPO, "-I" + os.path.join(REPO, "include"), "-c", src, "-o", tmp])
    os.replace(tmp, obj)


def build(names, variant="asan"):
    """Returns {driver name: path of the binary}."""
    flags = VARIANTS[variant]
    srcs = _sources()
    lib = [s for s in srcs if s.startswith(os.path.join(REPO, "src/lib")) and s.endswith((".cpp", ".c"))]
    libdir = os.path.join(BUILD, "lib-%s-%s" % (variant, _hash(srcs, (variant, flags, CXX, CC))))
    os.makedirs(libdir, exist_ok=True)
    jobs, objs = [], []
    for s in lib:
        o = os.path.join(libdir, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    common = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS)) if f.endswith(".h")]
    bins = {}
    links = []
    for n in names:
        # NAME.cpp and NAME_*.cpp
        parts = [os.path.join(HARNESS, f) for f in sorted(os.listdir(HARNESS))
                 if f == n + ".cpp" or f.startswith(n + "_") and f.endswith(".cpp")]
        key = _hash(parts + common, ())
        mine = []
        for src in parts:
            obj = os.path.join(libdir, "%s-%s.o" % (os.path.basename(src)[:-4], _hash([src] + common, ())))
            mine.append(obj)
            if not os.path.exists(obj):
                jobs.append((src, obj))
        exe = os.path.join(libdir, "%s-%s" % (n, key))
        bins[n] = exe
        if not os.path.exists(exe):
            links.append((mine, exe))
    # the drivers take longest
    jobs.sort(key=lambda j: not j[0].startswith(HARNESS))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _compile(j[0], j[1], flags), jobs))
        list(ex.map(lambda l: _link(l, objs, flags), links))
    _prune(libdir)
    return bins


def _link(l, objs, flags):
    mine, exe = l
    tmp = exe + ".%d.tmp" % os.getpid()
    _run(CXX + flags + mine + objs + ["-o", tmp])
    os.replace(tmp, exe)


def _prune(current):
    """Keeps the build directories of the last few versions of the library."""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("lib-")]
    os.utime(current)
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[6:]:
        if d != current:
            shutil.rmtree(d, ignore_errors=True)
