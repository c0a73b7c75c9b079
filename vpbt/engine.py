"""Property-based engine: Hypothesis generation in parallel worker processes, bounded shrinking,
replay files, known findings, evidence.

A check module provides
  ID        property id
  RULE      how cases are made and what makes one non-trivial
  PARTS     list of Part(name, strategy, check, quick, thorough)
              strategy : Hypothesis strategy of JSON-able values
              check(v) : returns a non-triviality key (hashable / None = trivial), raises Violation
  VARIANTS / PROGS  what to build
"""
import hashlib, importlib, json, multiprocessing as mp, os, random, sys, time, traceback, warnings

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from hypothesis.internal.conjecture import engine as _ce

from . import build as B, mdz

# independent draws instead of mutations of the previous example: more distinct cases per second of simulation
if hasattr(_ce.ConjectureRunner, "generate_mutations_from"):
    _ce.ConjectureRunner.generate_mutations_from = lambda self, data: None

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
REPL = os.path.join(VERIF, "replays")
SHRINK = float(os.environ.get("VPBT_SHRINK", "25"))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class Part:
    def __init__(self, name, strategy, check, quick, thorough, fixed=()):
        self.name, self.strategy, self.check, self.quick, self.thorough, self.fixed = name, strategy, check, quick, thorough, list(fixed)


def jdump(v):
    return json.dumps(v, sort_keys=True, default=_np)


def _np(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(repr(o))


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def ran(c, **kw):
    """runs a case; no verdict if the code itself reports that it found no solution (or time runs out), a violation if it dies otherwise"""
    r = mdz.run(c, **kw)
    if not r.ok():
        log = r.log[-800:]; rc = r.rc; g = rc in ("cpu", "wall") or mdz.gave_up(r)
        r.free()
        if g:
            raise Inconclusive("no solution (rc=%s)" % rc)
        raise Violation("run failed: rc=%s\n%s" % (rc, log))
    return r


def _known(pid):
    try:
        return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def _seed(seed, *names):
    return int.from_bytes(hashlib.sha256(repr((seed,) + names).encode()).digest()[:8], "big")


def _worker(modname, pi, wi, nworkers, seed, n, budget, outq):
    mod = importlib.import_module(modname)
    part = mod.PARTS[pi]
    t_end = time.time() + budget
    st = dict(eval=0, keys=set(), samples=[], incon=[], fail=None, skipped=0, err=None, triv=0, ninc=0)
    failing = {}
    shrink_end = [None]

    def one(v):
        v = json.loads(jdump(v))
        key = jdump(v)
        if key in failing:
            raise failing[key]
        now = time.time()
        lim = shrink_end[0] if shrink_end[0] else t_end
        if now > lim:
            st["skipped"] += 1
            return
        st["eval"] += 1
        try:
            k = part.check(v)
        except Inconclusive as e:
            st["ninc"] += 1
            if len(st["incon"]) < 5:
                st["incon"].append(str(e)[:300])
            return
        except Violation as e:
            if shrink_end[0] is None:
                shrink_end[0] = time.time() + min(SHRINK, max(20.0, budget * 0.5))
            failing[key] = e
            if st["fail"] is None or len(key) <= len(st["fail"][0]):
                st["fail"] = (key, str(e))
            raise
        if k is None:
            st["triv"] += 1
        else:
            kk = hashlib.sha256(repr(k).encode() + key.encode()).hexdigest()[:16]
            if kk not in st["keys"]:
                st["keys"].add(kk)
                if len(st["samples"]) < 2:
                    st["samples"].append({"part": part.name, "case": v, "why_nontrivial": str(k)[:200]})

    try:
        for j, v in enumerate(part.fixed):
            if j % nworkers == wi:
                try:
                    one(v)
                except Violation:
                    pass
        if n > 0 and st["fail"] is None:
            @hypothesis.seed(_seed(seed, mod.ID, part.name, wi))
            @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                      suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
            @given(part.strategy)
            def t(v):
                one(v)
            try:
                t()
            except Violation:
                pass
            except BaseException as e:
                if st["fail"] is None:
                    st["err"] = "".join(traceback.format_exception(e)).split("Failing test case")[0][-1500:]
    except BaseException as e:
        st["err"] = "".join(traceback.format_exception(e)).split("Failing test case")[0][-1500:]
    finally:
        mdz.cleanup()
    st["keys"] = list(st["keys"])
    outq.put((pi, wi, st))


def _confirm(mod, part, v, times=3):
    """Replays a case; True only if it fails every time."""
    msg = None
    for _ in range(times):
        try:
            part.check(json.loads(jdump(v)))
            return None
        except Violation as e:
            msg = str(e)
        except Inconclusive:
            return None
    return msg


def _setup(mod):
    mdz.init(getattr(mod, "VARIANTS", ("plain",)), getattr(mod, "PROGS", ("driver",)))
    if hasattr(mod, "setup"):
        mod.setup()


def main(modname):
    warnings.simplefilter("ignore")
    t0 = time.time()
    mod = importlib.import_module(modname)
    pid = mod.ID
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if "--quick" in args:
        tier = "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        _setup(mod)
    except B.BuildError as e:
        print("BUILD FAILED\n" + str(e)); sys.exit(2)
    if "--replay" in args:
        r = json.load(open(args[args.index("--replay") + 1]))
        part = [p for p in mod.PARTS if p.name == r["part"]][0]
        m = _confirm(mod, part, r["case"], 1)
        mdz.cleanup()
        print("still fails: " + m if m else "passes")
        sys.exit(1 if m else 0)
    only = args[args.index("--part") + 1] if "--part" in args else None
    scale = float(args[args.index("--scale") + 1]) if "--scale" in args else 1.0
    nw = min(8, os.cpu_count() or 8)
    budget = 240.0 if tier == "quick" else 3000.0
    parts = [(i, p) for i, p in enumerate(mod.PARTS) if only is None or p.name == only]

    tot = dict(eval=0, triv=0, ninc=0, skipped=0)
    keys, samples, incon, fails, per = set(), [], [], [], {}
    ctx = mp.get_context("fork")
    # all parts share the worker pool: each worker runs one (part, slice) job
    jobs = []
    for i, p in parts:
        n = int(round((p.quick if tier == "quick" else p.thorough) * scale))
        w = max(1, min(nw, n)) if n else (1 if p.fixed else 0)
        for k in range(w):
            m = n // w + (1 if k < n % w else 0)
            jobs.append((i, k, w, m))
    q = ctx.Queue()
    running = {}
    t_end = t0 + budget
    done = []
    stop = False
    import queue as _q
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < nw and not stop:
            i, k, w, m = pending.pop(0)
            left = max(5.0, t_end - time.time())
            pr = ctx.Process(target=_worker, args=(modname, i, k, w, seed, m, left, q))
            pr.start()
            running[(i, k)] = pr
        if stop:
            pending = []
        try:
            pi, wi, st = q.get(timeout=1.0)
        except _q.Empty:
            for kk, pr in list(running.items()):
                if not pr.is_alive() and q.empty():
                    time.sleep(0.5)
                    if q.empty():
                        print("WORKER DIED", kk, pr.exitcode)
                        running.pop(kk)
                        done.append(None)
            continue
        running.pop((pi, wi)).join()
        for f in ("eval", "triv", "ninc", "skipped"):
            tot[f] += st[f]
        name = mod.PARTS[pi].name
        d = per.setdefault(name, dict(evaluations=0, nontrivial=0, trivial=0, inconclusive=0))
        d["evaluations"] += st["eval"]; d["nontrivial"] += len(st["keys"]); d["trivial"] += st["triv"]; d["inconclusive"] += st["ninc"]
        keys |= {(pi, k) for k in st["keys"]}
        samples += st["samples"]; incon += st["incon"]
        if st["err"]:
            print("HARNESS ERROR in part %s:\n%s" % (name, st["err"]))
            done.append(None)
        if st["fail"]:
            fails.append((pi, json.loads(st["fail"][0]), st["fail"][1]))
            stop = True

    viol, known_seen = [], []
    known = _known(pid)
    for pi, v, msg in sorted(fails, key=lambda f: len(jdump(f[1]))):
        part = mod.PARTS[pi]
        m = _confirm(mod, part, v)
        if m is None:
            print("note: a failure did not reproduce three times and is not reported: %s" % msg[:300])
            continue
        viol.append((part.name, v, m))
    # known findings are fixed inputs which must still fail as listed
    for kf in known:
        part = [p for p in mod.PARTS if p.name == kf["part"]][0]
        m = _confirm(mod, part, kf["case"], 1)
        if m:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    # a violation is suppressed only if it is exactly a listed case
    kc = {(k["part"], jdump(k["case"])) for k in known}
    viol = [x for x in viol if (x[0], jdump(x[1])) not in kc]
    mdz.cleanup()

    os.makedirs(EVID, exist_ok=True)
    seen, smp = set(), []
    for s in samples:
        if sum(1 for x in smp if x["part"] == s["part"]) < 2:
            smp.append(s)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["eval"], "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": smp,
                       "trivial": tot["triv"], "inconclusive": tot["ninc"], "not_run_for_time": tot["skipped"], "per_part": per,
                       "inconclusive_reasons": incon[:8]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=_np)
    print("%s %s seed=%d: %d evaluated, %d distinct non-trivial, %d trivial, %d inconclusive, %d not run (time), %.1f s" %
          (pid, tier, seed, tot["eval"], len(keys), tot["triv"], tot["ninc"], tot["skipped"], time.time() - t0))
    for n, d in per.items():
        print("   %-24s %s" % (n, d))
    if viol:
        os.makedirs(REPL, exist_ok=True)
        for name, v, m in viol[:1]:
            fn = os.path.join(REPL, "%s-%s-%s.json" % (pid, name, hashlib.sha256(jdump(v).encode()).hexdigest()[:10]))
            json.dump({"property": pid, "part": name, "case": v, "message": m}, open(fn, "w"), indent=1, default=_np)
            print("  %s: %s" % (name, m[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, fn))
        sys.exit(1)
    if None in done:
        sys.exit(3)
    sys.exit(0)
