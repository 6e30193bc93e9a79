"""
Runs the cases of one property in parallel, collects what the monitors saw,
writes the evidence file and turns the outcome into an exit status.

  0  the property held on everything explored
  1  violated (a VIOLATION line and a replay file)
  2  no verdict (harness error, or the deciding monitor was not reached)
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import get_context

import numpy as np

from . import target
from .target import Trace, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = min(8, os.cpu_count() or 1)


def rng_for(seed, prop, case):
    h = int.from_bytes(hashlib.sha256(("%s/%s/%s" % (seed, prop, case)).encode()).digest()[:8], "big")
    return np.random.default_rng(h)


class Ctx:
    """What a case gets: a generator, a trace to count on, and the tier."""

    def __init__(self, seed, prop, case, tier):
        self.rng = rng_for(seed, prop, case)
        self.tr = Trace()
        self.tier = tier
        self.seed = seed
        self.case = case
        self.meta = {}
        self.digest = None
        self.known = []       # keys of known findings that were observed

    def sign(self, *arrays):
        h = hashlib.sha1()
        for a in arrays:
            h.update(np.ascontiguousarray(a).tobytes() if isinstance(a, np.ndarray) else repr(a).encode())
        self.digest = h.hexdigest()


def _jsonable(o):
    if isinstance(o, np.ndarray):
        return o.tolist() if o.size <= 4000 else {"shape": list(o.shape)}
    if isinstance(o, (np.floating, np.integer)):
        return o.item()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def run_one(module, seed, prop, case, tier):
    ctx = Ctx(seed, prop, case, tier)
    out = dict(case=case, violation=None, error=None)
    t0 = time.time()
    try:
        module.run_case(ctx, case)
    except Violation as v:
        w = dict(v.witness)
        w.setdefault("meta", ctx.meta)
        out["violation"] = dict(message=v.message, witness=json.loads(json.dumps(w, default=_jsonable)))
    except Exception as e:  # noqa: BLE001
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        src = os.path.join(target.REPO, "src") + os.sep
        if files and not isinstance(e, MemoryError) and any(f.startswith(src) for f in files):
            # nothing the cases do may make the code under test fail this way
            out["violation"] = dict(message="unexpected %r from the code under test" % (e,),
                                    witness=dict(meta=ctx.meta, traceback=traceback.format_exc()))
            out["violation"] = json.loads(json.dumps(out["violation"], default=_jsonable))
        else:
            out["error"] = traceback.format_exc()
    out.update(trace=ctx.tr.as_dict(), meta=ctx.meta, digest=ctx.digest, known=ctx.known, wall=time.time() - t0)
    return out


def _chunk(modname, seed, prop, cases, tier, deadline):
    import importlib
    module = importlib.import_module(modname)
    res = []
    for c in cases:
        if time.time() > deadline:
            break
        res.append(run_one(module, seed, prop, c, tier))
        if res[-1]["violation"]:
            break
    return res


def load_findings(prop):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            f = line.strip().split(None, 3)
            if len(f) >= 3 and f[0] == "finding:" and f[1] == "property=" + prop and f[2].startswith("key="):
                out[f[2][4:]] = f[3] if len(f) > 3 else ""
    return out


def main(prop, modname, argv):
    import importlib
    module = importlib.import_module(modname)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        out = run_one(module, r["seed"], r["property"], r["case"], r["tier"])
        print(json.dumps(out, indent=1, default=_jsonable))
        return 1 if out["violation"] else 0
    n = module.CASES[tier]
    if "--cases" in argv:
        n = int(argv[argv.index("--cases") + 1])
    t0 = time.time()
    budget = 480 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3000"))
    deadline = t0 + budget
    chunk = max(1, min(getattr(module, "CHUNK", 8), n // WORKERS or 1))
    cases = list(range(n))
    chunks = [cases[i:i + chunk] for i in range(0, n, chunk)]
    results = []
    violated = None
    broken, slow = None, False
    scratch = tempfile.mkdtemp(prefix="vmon-run-")
    keep_tempdir, tempfile.tempdir = tempfile.tempdir, scratch      # inherited by the workers
    workers = getattr(module, "WORKERS", WORKERS)
    pool = ProcessPoolExecutor(max_workers=workers, mp_context=get_context("fork"))
    try:
        futs = [pool.submit(_chunk, modname, seed, prop, c, tier, deadline) for c in chunks]
        for f in as_completed(futs, timeout=budget + 240):
            for r in f.result():
                results.append(r)
                if r["violation"] and (violated is None or r["case"] < violated["case"]):
                    violated = r
            if violated:
                for g in futs:
                    g.cancel()
                break
    except BrokenProcessPool as e:
        broken = repr(e)
    except TimeoutError as e:
        broken, slow = repr(e), True
    finally:
        for p in list((getattr(pool, "_processes", None) or {}).values()):
            if violated or broken:
                p.kill()
        pool.shutdown(wait=not (violated or broken), cancel_futures=True)
        tempfile.tempdir = keep_tempdir
        shutil.rmtree(scratch, ignore_errors=True)

    tot = {}
    digests = set()
    shapes = set()
    errors = [r for r in results if r["error"]]
    known = {}
    for r in results:
        for k, v in r["trace"].items():
            tot[k] = tot.get(k, 0) + v
        if r["trace"].get("decided", 0) and r["digest"]:
            digests.add(r["digest"])
        m = r["meta"]
        if m:
            shapes.add(tuple(str(m.get(x)) for x in ("size", "pattern", "geometry", "k", "d", "kind")))
        for k in r["known"]:
            known[k] = known.get(k, 0) + 1
    samples = [dict(case=r["case"], meta=r["meta"], trace=r["trace"]) for r in results[:3]]
    if hasattr(module, "example") and not violated:
        samples.append(module.example())
    findings = load_findings(prop)
    unlisted = [k for k in known if k not in findings]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(digests),
            rule=module.RULE,
            samples=json.loads(json.dumps(samples, default=_jsonable)),
            cases_planned=n,
            distinct_workload_shapes=len(shapes),
            observed=tot,
            known_findings_observed=known,
        ),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=1 if violated else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=_jsonable)
    os.replace(path + ".tmp", path)

    print("%s [%s, seed %d]: %d cases, %d distinct decided, %s, %.1f s" % (
        prop, tier, seed, len(results), len(digests),
        ", ".join("%s=%s" % kv for kv in sorted(tot.items()) if kv[1]), time.time() - t0))
    if not violated and unlisted:
        violated = next(r for r in results if any(k in unlisted for k in r["known"]))
        violated["violation"] = dict(message="unlisted finding: %s" % unlisted, witness={})
    if violated:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (prop, tier, seed, violated["case"]))
        with open(rp, "w") as fh:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=violated["case"],
                           replay_cmd="/opt/venv/bin/python /verif/check.py %s --replay %s" % (prop, rp),
                           **violated["violation"]), fh, indent=1, default=_jsonable)
        print("  " + violated["violation"]["message"])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times)" % (prop, k, findings[k], known[k]))
    if errors:
        print("harness error in case %d:\n%s" % (errors[0]["case"], errors[0]["error"]))
        return 2
    if broken and not (slow and tot.get("decided")):
        print("no verdict: " + broken)
        return 2
    missing = [k for k, lo in getattr(module, "REQUIRED", {}).items() if tot.get(k, 0) < lo]
    if len(results) < n and time.time() > deadline:
        # a slow machine cut the run short: what was decided, held
        print("stopped after %d of %d cases at the time limit" % (len(results), n))
        if len(results) >= n // 20 and tot.get("decided"):
            return 0
    if len(results) < n or not tot.get("decided") or missing:
        print("no verdict: %d of %d cases, decided=%s, not reached: %s" % (len(results), n, tot.get("decided"), missing))
        return 2
    return 0
