"""Runs TLC: exhaustive checks of a model, and validation of traces."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .build import VERIF, BUILD

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def _tlc(spec, cfg, env, workers, timeout, heap, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    try:
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m",
               "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", meta, "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, spec)]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out: %s %s" % (spec, cfg))
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def _stats(out):
    m = STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(spec, cfg, timeout=600, workers=8, heap="8g", env=None, extra=(), coverage=False):
    """Exhaustive check of a model. Returns dict(states, transitions, scripts, actions)."""
    rc, out = _tlc(spec, cfg, env or {}, workers, timeout, heap, [*(["-coverage", "60"] if coverage else []), *extra])
    gen, dist = _stats(out)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("model check of %s/%s failed (%d):\n%s" % (spec, cfg, rc, out[-6000:]))
    acts = {}
    for m in re.finditer(r"^<(\w+) line .*? of module (\w+)>: (\d+):(\d+)", out, re.M):
        acts[m.group(1)] = int(m.group(4))
    dead = [a for a, n in acts.items() if n == 0 and not a.startswith("Unused")]
    if dead:
        raise ToolError("model %s/%s: actions never taken: %s" % (spec, cfg, dead))
    scripts = [l[len('"SCRIPT '):-1] for l in out.splitlines() if l.startswith('"SCRIPT ')]
    return {"spec": spec, "cfg": cfg, "states": dist, "transitions": gen, "actions": acts,
            "scripts": [json.loads(s.replace('\\"', '"').replace('\\\\', '\\')) for s in scripts]}


def _shards(lines, n):
    """Contiguous parts of about the same size."""
    total = sum(len(a) + len(b) + 400 for a, b in lines)
    out, cur, size = [], [], 0
    for i, (a, b) in enumerate(lines):
        cur.append(i)
        size += len(a) + len(b) + 400
        if size >= total / n and len(out) < n - 1:
            out.append(cur)
            cur, size = [], 0
    if cur:
        out.append(cur)
    return out


def validate(spec, cfg, script, result, timeout=800, shards=8, heap="3g", env=None):
    """script, result: lists of JSON lines of the same length. Returns
    dict(states, transitions, rejected=[index of a rejected case of each shard], detail)."""
    if len(script) != len(result):
        raise ToolError("script and result differ in length")
    lines = list(zip(script, result))
    work = tempfile.mkdtemp(prefix="val-", dir=BUILD)
    try:
        def one(k_idx):
            k, idx = k_idx
            sp, rp = os.path.join(work, "s%d" % k), os.path.join(work, "r%d" % k)
            with open(sp, "w") as f:
                f.writelines(script[i] + "\n" for i in idx)
            with open(rp, "w") as f:
                f.writelines(result[i] + "\n" for i in idx)
            e = {"SCRIPT": sp, "RESULT": rp}
            e.update(env or {})
            rc, out = _tlc(spec, cfg, e, 1, timeout, heap)
            gen, dist = _stats(out)
            m = re.search(r'<<"REJECTED", (\d+)>>', out)
            if rc == 0 and "No error has been found" in out and not m:
                return gen, dist, None, ""
            # a postcondition that is violated, and nothing else
            other = [l for l in out.splitlines() if l.startswith("Error:") and "ostcondition" not in l]
            if m and not other:
                return gen, dist, idx[int(m.group(1)) - 1], ""
            raise ToolError("validation with %s failed (%d):\n%s" % (spec, rc, out[-5000:]))
        parts = list(enumerate(_shards(lines, shards)))
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, parts))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return {"transitions": sum(r[0] for r in rs), "states": sum(r[1] for r in rs),
            "rejected": [r[2] for r in rs if r[2] is not None]}
