"""Property registry, obligation bookkeeping and reporting."""
import importlib, json, os, pkgutil, sys, time, traceback
from eng import pipeline
from eng.interp import Prog, AnalysisError
from eng import spec

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
PROPS = {}


class Prop:
    def __init__(self, pid, fn, floor, technique, rule):
        self.pid, self.fn, self.floor, self.technique, self.rule = pid, fn, floor, technique, rule


def prop(pid, floor, rule, technique="gated value-flow analysis of MIR (abstract interpretation, no execution)"):
    def deco(fn):
        PROPS[pid] = Prop(pid, fn, floor, technique, rule)
        return fn
    return deco


class Ob:
    def __init__(self, key, ok, detail, where):
        self.key, self.ok, self.detail, self.where = key, ok, detail, where


class Ctx:
    """Shared program, cached runs, and the obligations of one property."""

    def __init__(self, progs):
        self._progs = progs
        self.obs = []
        self.fns = set()
        self.notes = []

    @property
    def P(self):
        return self._progs.get("invariant")

    @property
    def W(self):
        return self._progs.get("invariant_vara_wasm")

    def run(self, name):
        """summary of a service entry (cached)"""
        return self._progs.run(self, name)

    def memo(self, key, f):
        return self._progs.memo(key, f)

    def ob(self, key, ok, detail="", where=""):
        if callable(ok):
            try:
                ok = ok()
            except AnalysisError as e:
                detail = "analysis could not decide: %s" % e
                ok = False
        if ok is not True and callable(detail):
            detail = detail()
        elif callable(detail):
            detail = ""
        self.obs.append(Ob(key, ok is True, detail, where))
        return ok is True

    def same(self, key, x, a, b, pc=spec.TRUE, where="", what=""):
        """obligation: a == b at exit x (whenever pc)"""
        try:
            ok = x.same(a, b, pc)
            d = "" if ok else "%s: %s" % (what or "values differ", x.explain())
        except AnalysisError as e:
            ok, d = False, "analysis could not decide: %s" % e
        return self.ob(key, ok, d, where)

    def implies(self, key, x, c, pc=None, where="", what=""):
        try:
            ok = x.implies(c, pc)
            d = "" if ok else (what or "guard not established") + ": " + spec.t.bshow(c, 5)[:300]
        except AnalysisError as e:
            ok, d = False, "analysis could not decide: %s" % e
        return self.ob(key, ok, d, where)


class Progs:
    def __init__(self):
        self.p = {}
        self.runs = {}
        self.mem = {}
        self.paths = None
        self.info = {}

    def load(self):
        if self.paths is None:
            a, b, self.info = pipeline.dump()
            self.paths = {"invariant": a, "invariant_vara_wasm": b}

    def get(self, c):
        if c not in self.p:
            self.load()
            self.p[c] = Prog(self.paths[c])
        return self.p[c]

    def run(self, ctx, name):
        if name not in self.runs:
            P = self.get("invariant")
            f = spec.services(P).get(name)
            if f is None:
                raise AnalysisError("entry point %s not found" % name)
            self.runs[name] = spec.Run(P, f)
        r = self.runs[name]
        ctx.fns |= {self.get("invariant").fns[i]["key"] for i in r.I.visited} if hasattr(r.I, "visited") else {r.f["key"]}
        return r

    def memo(self, key, f):
        if key not in self.mem:
            self.mem[key] = f()
        return self.mem[key]


def load_all():
    import checks
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module("checks." + m.name)


def known():
    p = os.path.join(HERE, "known_findings.json")
    try:
        d = json.load(open(p))
    except OSError:
        return {}
    return {(x["property"], x["key"]): x for x in d.get("known", [])}



def run_one(pid, tier, progs):
    t0 = time.time()
    pr = PROPS[pid]
    ctx = Ctx(progs)
    ctx.tier = tier
    try:
        progs.load()
        pr.fn(ctx)
    except pipeline.BuildError as e:
        ctx.ob("build", False, str(e))
    except AnalysisError as e:
        ctx.ob("analysis", False, "the analysis does not understand the current code: %s" % e)
    except MemoryError:
        progs.p, progs.runs, progs.mem = {}, {}, {}
        ctx.ob("analysis", False, "the analysis of the current code runs out of memory")
    except Exception as e:
        ctx.ob("analysis", False, "analysis failed: %s\n%s" % (e, traceback.format_exc()[-2500:]))
    seen = {}
    for o in ctx.obs:
        seen.setdefault(o.key, o)
    n = len(seen)
    if n < pr.floor and all(o.ok for o in ctx.obs):
        ctx.ob("floor", False, "only %d obligations generated, at least %d expected" % (n, pr.floor))
    kn = known()
    bad = [o for o in ctx.obs if not o.ok]
    listed = [o for o in bad if (pid, o.key) in kn]
    bad = [o for o in bad if (pid, o.key) not in kn]
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL,
        "coverage": {
            "obligations": len(ctx.obs), "discharged": sum(o.ok for o in ctx.obs),
            "checker_cmd": "/verif/check %s %s" % (pid, tier),
            "trusted_base": TRUSTED,
            "rule": pr.rule,
            "functions_analysed": sorted(ctx.fns)[:400],
            "functions_analysed_count": len(ctx.fns),
            "samples": [o.key for o in ctx.obs][:400],
            "tree": progs.info,
            "explanation": pr.technique + ". " + pr.rule,
        },
        "assumptions": ctx.notes,
        "wall_s": round(wall, 3),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, o.key)]["what"]))
    if bad:
        rp = os.path.join(EVID, pid + ".replay.txt")
        with open(rp, "w") as f:
            for o in bad:
                f.write("obligation %s\n  at: %s\n  %s\n\n" % (o.key, o.where, o.detail))
        for o in bad[:12]:
            print("  %s obligation %s violated%s: %s" % (pid, o.key, " in " + o.where if o.where else "", str(o.detail)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s ok: %d obligations over %d functions in %.1fs" % (pid, len(ctx.obs), len(ctx.fns), wall))
    return 0


LEVEL = "proof"
TRUSTED = [
    "rustc nightly's MIR construction and monomorphisation (the tree pins 1.81; sources are the same)",
    "/verif/driver (MIR dumper), /verif/eng (abstract interpreter, term algebra)",
    "/verif/eng/models.py: models of std, primitive_types, gstd and parity-scale-codec functions",
    "/verif/mirror/sails-rs: sails-rs 0.3.0 with macros replaced so that the service methods compile natively",
]


def bounded(pid, tier):
    """A tree the analysis cannot finish on is one it cannot vouch for: say so instead of running out of time or memory."""
    import resource, threading
    if pid.split("-")[0] == "all":
        return
    gb = int(os.environ.get("VERIF_MEM_GB", "18"))
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))

    def late():
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("obligation analysis\n  the analysis of the current code does not come to an end\n")
        print("  %s obligation analysis violated: the analysis of the current code does not come to an end" % pid)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.stdout.flush()
        os._exit(1)

    th = threading.Timer(820, late)
    th.daemon = True
    th.start()


def main(argv):
    load_all()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if pid == "setup":
        pipeline.dump()
        return 0
    progs = Progs()
    bounded(pid, tier)
    if pid.split("-")[0] == "all":
        # "all-E08": all but those named
        rc = 0
        for p in sorted(set(PROPS) - set(pid.split("-")[1:])):
            rc |= run_one(p, tier, progs)
            if rc and os.environ.get("VERIF_STOP"):
                break
        return rc
    if pid not in PROPS:
        print("unknown property", pid)
        return 2
    return run_one(pid, tier, progs)
