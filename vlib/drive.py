"""Runs a driver over a script."""
import json, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .build import BUILD

ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                       "detect_stack_use_after_return=0:symbolize=1",
       "TSAN_OPTIONS": "halt_on_error=1:report_signal_unsafe=0:report_thread_leaks=0",
       "LC_ALL": "C.UTF-8"}


class DriverError(Exception):
    pass


def _part(exe, lines, k, work, max_crashes):
    sp, rp = os.path.join(work, "s%d" % k), os.path.join(work, "r%d" % k)
    with open(sp, "w") as f:
        f.writelines(l + "\n" for l in lines)
    open(rp, "w").close()
    env = dict(os.environ)
    env.update(ENV)
    start, crashes, notes = 0, 0, []
    while True:
        p = subprocess.run([exe, sp, rp, str(start)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        with open(rp) as f:
            res = f.read().split("\n")[:-1]
        if p.returncode == 0:
            if len(res) != len(lines):
                raise DriverError("driver wrote %d of %d results" % (len(res), len(lines)))
            return res, notes
        if p.returncode == 3:
            raise DriverError("driver: " + p.stderr[-2000:])
        # the case after the last result brought the driver down
        what = "hang" if p.returncode == -14 else "crash"
        notes.append((len(res), what, p.returncode, p.stderr[-3000:]))
        res = res[:len(lines)]
        res.append(json.dumps({"st": what}))
        crashes += 1
        if crashes >= max_crashes:
            res += [json.dumps({"st": what})] * (len(lines) - len(res))
        with open(rp, "w") as f:
            f.writelines(l + "\n" for l in res)
        start = len(res)
        if start >= len(lines):
            return res, notes


def drive(exe, script, parts=8, max_crashes=4):
    """script: list of JSON lines. Returns (list of JSON lines, notes about crashes)."""
    work = tempfile.mkdtemp(prefix="drv-", dir=BUILD)
    n = max(1, min(parts, len(script) // 4))
    # round robin: big cases get spread
    groups = [list(range(k, len(script), n)) for k in range(n)]
    try:
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda kg: _part(exe, [script[i] for i in kg[1]], kg[0], work, max_crashes),
                             enumerate(groups)))
    finally:
        subprocess.run(["rm", "-rf", work])
    out = [None] * len(script)
    notes = []
    for g, (res, nt) in zip(groups, rs):
        for i, r in zip(g, res):
            out[i] = r
        notes += [(g[i] if i < len(g) else -1, *rest) for i, *rest in nt]
    return out, notes
