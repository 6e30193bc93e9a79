"""Legacy objects are isolated from their caller and from one another."""
import copy
import pickle
import threading

import numpy as np

from .. import gen, ref
from ..target import Violation, cvi
from . import common

CASES = {"quick": 500, "thorough": 6000}
CHUNK = 6
RULE = ("A case is one stream with labels introduced as 0, 1, 2, ... and one quiet run of a legacy object of each name; the "
        "same stream is then fed to objects in hostile settings (other numeric types, reused or overwritten buffers and views, "
        "refused labels in between, other legacy objects of the same and other names in between, copies taken "
        "mid-stream, one object per thread) and every returned value must be the one of the quiet run. Distinct by SHA-1 "
        "of the stream.")
ASSUMPTIONS = ["iSIL is left out: it cannot process a stream (see C21)",
               "values are compared with a relative tolerance of 1e-6; non-finite or huge (above 1e9) values of the quiet "
               "run give no verdict"]
LEGACY = ("iDB", "iGD43", "iGD53", "iCH", "iPS", "iXB")
SETTINGS = ("types", "buffer", "trash", "views", "refused", "neighbours", "copies", "threads")
REQUIRED = dict([("%s_%s" % (s, n), 200) for s in SETTINGS for n in LEGACY
                 if not (s == "refused" and n == "iPS") and s != "threads"] + [("fingerprints", 5000)] +
                [("threads_" + n, 60) for n in LEGACY])
TYPES = ("u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8", ">f8", ">i4")


def update(ctx, obj, name, x, c, what):
    ctx.tr.events += 1
    try:
        return obj.update(x, c)
    except Exception as e:  # noqa: BLE001
        raise Violation("legacy %s.update raised %r (%s)" % (name, e, what), index=name)


def judge(ctx, name, setting, i, v, want, X, idx):
    if want is None or not np.isfinite(want) or abs(want) > 1e9:
        ctx.tr.skipped += 1
        return
    ctx.tr.decided += 1
    ctx.tr.tag("%s_%s" % (setting, name))
    if not (np.isfinite(v) and abs(v - want) <= 1e-6 * abs(want) + 1e-12):
        raise Violation("legacy %s (%s): %r after sample %d, %r when undisturbed" % (name, setting, v, i + 1, want),
                        index=name, setting=setting, X=X[:i + 1], labels=[int(c) for c in idx[:i + 1]])


def quiet(ctx, name, X, idx):
    obj = cvi.compat.iCVI(name)
    return [update(ctx, obj, name, X[i].copy(), int(idx[i]), "quiet run") for i in range(len(idx))]


def noise(ctx, others, rng, d):
    """A call on some other legacy object."""
    if not others or rng.random() < 0.3:
        n = LEGACY[int(rng.integers(0, 6))]
        others.append([n, cvi.compat.iCVI(n), 0])
        if len(others) > 6:
            others.pop(0)
    o = others[int(rng.integers(0, len(others)))]
    c = int(rng.integers(0, o[2] + 1)) if o[2] < 5 else int(rng.integers(0, 5))
    update(ctx, o[1], o[0], rng.normal(size=d) * 7, c, "another object")
    o[2] = max(o[2], c + 1)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    X, labels, meta = gen.stream(rng, size=("huge", "mono", "deep")[case // 50 % 3] if case % 50 == 7 else
                                 str(rng.choice(["tiny", "small", "medium", "many"], p=[.3, .5, .18, .02])),
                                 scale=1.0, offset=0.0)
    idx, k = ref.dense(labels)
    X = np.clip(np.round(X * float(rng.choice([1.0, 4.0, 10.0]))), -120, 120)
    if rng.random() < 0.5:
        X = np.abs(X)
    if rng.random() < 0.3:             # numbers that the narrow types cannot hold
        X = np.round(X * float(rng.choice([3.0, 250.0, 30000.0])) + rng.integers(-9, 10, size=X.shape[1]))
    if rng.random() < 0.4:             # full doubles here and there
        some = rng.random(len(X)) < float(rng.choice([0.2, 0.7]))
        X[some] += rng.uniform(-0.5, 0.5, size=(int(some.sum()), X.shape[1]))
    N, d = X.shape
    meta["kind"] = "legacy"
    ctx.meta = meta
    ctx.sign(X, idx)
    fits = [[t for t in TYPES if np.array_equal(x.astype(t).astype(float), x)] for x in X]
    Q = {}
    for name in LEGACY:
        want = quiet(ctx, name, X, idx)
        Q[name] = want
        for setting in SETTINGS[:-1]:
            if setting == "refused" and name == "iPS":
                continue
            if rng.random() < (0.3 if N < 1000 else 0.6) and N > 60:
                continue
            obj = cvi.compat.iCVI(name)
            buf = np.empty(d)
            others = []
            fixed = str(rng.choice(TYPES)) if rng.random() < 0.6 else None
            kept = []
            form = str(rng.choice(common.LOANS))
            for i in range(N):
                c = int(idx[i])
                if setting == "types":
                    x = X[i].astype(fixed if fixed in fits[i] else str(rng.choice(fits[i])))
                elif setting == "buffer":
                    buf[:] = X[i]
                    x = buf
                elif setting == "views":
                    x, handle = common.lend(X[i], form if rng.random() < 0.8 else str(rng.choice(common.LOANS)))
                else:
                    x = X[i].copy()
                if setting == "refused" and rng.random() < 0.3:
                    seen = int(idx[:i].max()) + 1 if i else 0
                    try:
                        obj.update(rng.normal(size=d) * 50, seen + int(rng.integers(1, 5)))
                    except ValueError:
                        tr.rejected += 1
                    else:
                        raise Violation("legacy %s accepted a label that skips ahead" % name, index=name)
                if setting == "neighbours":
                    for _ in range(int(rng.integers(0, 3))):
                        noise(ctx, others, rng, d)
                if setting == "copies" and rng.random() < 0.3:
                    new = pickle.loads(pickle.dumps(obj)) if rng.random() < 0.5 else copy.deepcopy(obj)
                    if rng.random() < 0.5:
                        obj, new = new, obj
                    if i and rng.random() < 0.5:       # the other one goes its own way
                        update(ctx, new, name, rng.normal(size=d) * 50, int(rng.integers(0, int(idx[:i].max()) + 1)), "a copy")
                before = x.tobytes()
                v = update(ctx, obj, name, x, c, setting)
                tr.tag("fingerprints")
                if x.tobytes() != before:
                    raise Violation("legacy %s.update modified the sample it was given" % name, index=name)
                if setting == "trash":
                    kept.append(x)
                    kept[int(rng.integers(0, len(kept)))][:] = rng.normal(size=d) * 100
                    x[:] = 99.0
                if setting == "views":
                    handle[...] = rng.normal(size=d) * 100
                judge(ctx, name, setting, i, v, want[i], X, idx)
                if setting in ("trash", "buffer", "views") and not (obj.output == v or v != v):
                    raise Violation("legacy %s: output changed with the caller's buffer" % name, index=name)
    if case % 5 == 0:
        out = {}

        def work(name):
            try:
                o = cvi.compat.iCVI(name)
                out[name] = [o.update(X[i].copy(), int(idx[i])) for i in range(N)]
            except Exception as e:  # noqa: BLE001
                out[name] = e
        ts = [threading.Thread(target=work, args=(n,)) for n in LEGACY]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for name in LEGACY:
            if isinstance(out[name], Exception):
                raise Violation("legacy %s raised %r in a thread" % (name, out[name]), index=name)
            for i in range(N):
                judge(ctx, name, "threads", i, out[name][i], Q[name][i], X, idx)


def example():
    return dict(settings=SETTINGS, types=TYPES)
