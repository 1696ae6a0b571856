"""Common course of a check."""
import json, os, random, sys, time, traceback
from . import build as B, tlc as T, drive as D

EVID = os.path.join(B.VERIF, "evidence")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.models = []          # exhaustive checks
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.unrepeated = []
        os.makedirs(B.BUILD, exist_ok=True)
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)

    def rng(self, salt=""):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, salt))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def build(self, names, variant="asan"):
        bins = B.build(names, variant)
        self.log("built", ", ".join(names))
        return bins

    def model(self, spec, cfg, **kw):
        m = T.model_check(spec, cfg, **kw)
        self.log("model %s %s: %d states, %d transitions" % (spec, cfg, m["states"], m["transitions"]))
        self.states += m["states"]
        self.transitions += m["transitions"]
        self.models.append({k: m[k] for k in ("spec", "cfg", "states", "transitions", "actions")})
        return m

    def conform(self, exe, spec, cases, name, cfg=None, shards=8, timeout=800, count=None):
        """Runs the cases through the implementation, validates the results
        against the specification. count: number of traces in a case."""
        cfg = cfg or spec.replace(".tla", ".cfg")
        script = [json.dumps(c, separators=(",", ":")) for c in cases]
        result, notes = D.drive(exe, script)
        v = T.validate(spec, cfg, script, result, timeout=timeout, shards=shards)
        bad = v["rejected"]
        if bad:
            # a second execution tells a stray timeout from a violation
            few = bad[:6]
            s2 = [script[i] for i in few]
            r2, notes2 = D.drive(exe, s2, parts=1, max_crashes=100)
            left = []
            for i, s, r in zip(few, s2, r2):
                again = T.validate(spec, cfg, [s], [r], shards=1, timeout=timeout)
                if again["rejected"]:
                    detail = [n for n in notes if n[0] == i]
                    self.violation(name, exe, spec, cfg, s, r, detail)
                else:
                    left.append(i)
            if left and not self.violations:
                # it may take what came before in the same process to fail
                r3, notes3 = D.drive(exe, script)
                v3 = T.validate(spec, cfg, script, r3, timeout=timeout, shards=shards)
                for i in v3["rejected"]:
                    detail = [n for n in notes3 if n[0] == i] + ["only among the other cases of the batch"]
                    self.violation(name, exe, spec, cfg, script[i], r3[i], detail)
                for i in left:
                    if not self.violations and json.loads(result[i]).get("st") != "hang":
                        self.violation(name, exe, spec, cfg, script[i], result[i],
                                       [n for n in notes if n[0] == i] + ["not in every run"])
            for i in left:
                self.log("rejection of case %d of %s was not repeated on its own" % (i, name))
                self.unrepeated.append(script[i][:2000])
        self.states += v["states"]
        self.transitions += v["transitions"]
        self.traces += sum(count(c) for c in cases) if count else len(cases)
        self.notes.setdefault("cases", {})[name] = len(cases)
        pick = self.rng("samples" + name)
        for i in pick.sample(range(len(cases)), min(2, len(cases))):
            self.samples.append({"batch": name, "script": script[i][:600], "result": result[i][:600]})
        self.log("%s: %d cases, %d states validated, %d rejected" % (name, len(cases), v["states"], len(bad)))
        return result

    def violation(self, name, exe, spec, cfg, script, result, detail):
        k = len(self.violations)
        path = os.path.join(EVID, "replay", "%s-%d.json" % (self.pid, k))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "batch": name, "driver": os.path.basename(exe).split("-")[0],
                       "spec": spec, "cfg": cfg, "script": json.loads(script), "result": json.loads(result),
                       "detail": detail}, f)
        self.violations.append(path)
        print("  rejected by %s: script %s  result %s" % (spec, script[:700], result[:700]), flush=True)
        for d in detail:
            print("  " + str(d)[-1500:].replace("\\n", "\n  "), flush=True)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:12],
                           "models": self.models, **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        return 1 if self.violations else 0


def main(registry):
    pid = sys.argv[1]
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            os.environ["VERIF_TIER"] = a
    c = Check(pid)
    try:
        registry[pid](c)
        if c.unrepeated and not c.violations:
            raise T.ToolError("rejection not repeated: %s" % c.unrepeated[0])
        rc = c.finish()
    except (B.BuildError, T.ToolError, D.DriverError) as e:
        if c.violations:       # an earlier batch found one
            rc = c.finish()
        else:
            print("ERROR: %s" % e, flush=True)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    c.log("exit %d" % rc)
    sys.exit(rc)
