"""The correct partition outranks merged, split and scrambled ones."""
import numpy as np

from .. import gen, ref
from ..target import NAMES, Violation, batch, make
from . import common

CASES = {"quick": 500, "thorough": 6000}
CHUNK = 4
RULE = ("A case is one set of 4-39 compact clusters of comparable size (centres at least ten radii apart, 1-6 features) with "
        "the true labelling and a merged, a randomly split and a scrambled one; each index's values for them, in batch and "
        "from full incremental runs in random order, must rank the true labelling strictly better in the index's direction. "
        "Distinct by SHA-1 of the data.")
ASSUMPTIONS = ["a comparison is asserted where the definitions themselves differ by at least 1% in the stated direction"]
HIGH = ("CH", "cSIL", "GD43", "PS", "GD53")
WRONG = {n: ("merged", "split", "scrambled") for n in NAMES}
WRONG["GD53"] = ("merged",)
WRONG["PS"] = ("split",)
WRONG["rCIP"] = ("split", "scrambled")
REQUIRED = dict([("%s_%s" % (n, w), 150) for n in NAMES for w in WRONG[n]])


def centres(rng, k, d, sep):
    while True:
        C = rng.uniform(-1, 1, size=(k, d)) * sep * k ** (1.0 / d) * (3.0 if d > 1 else 2.0)
        D = np.linalg.norm(C[:, None] - C[None], axis=2) + np.eye(k) * 1e9
        if D.min() >= sep:
            return C


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    k = int(rng.integers(4, 10)) if case % 20 else int(rng.integers(10, 40))
    d = int(rng.choice([1, 2, 2, 3, 4, 6, 12])) if case % 20 else int(rng.choice([2, 3, 5]))
    size = int(rng.integers(10, 40)) if case % 12 != 6 else int(rng.integers(60, 200))
    big = case % 25 == 13
    if big:                           # thousands of samples, or dozens of clusters
        k, size, d = (int(rng.integers(4, 9)), int(rng.integers(500, 1300)), 2) if rng.random() < 0.6 else \
            (int(rng.integers(45, 66)), int(rng.integers(8, 12)), int(rng.choice([2, 3, 4])))
    sep = float(rng.uniform(10, 25))
    ids = np.repeat(np.arange(k), [size + int(rng.integers(0, 4)) for _ in range(k)])
    C = centres(rng, k, d, sep)
    Z = rng.normal(size=(len(ids), d))
    Z /= np.maximum(1.0, np.linalg.norm(Z, axis=1) / 1.0)[:, None]     # radius at most one
    X = C[ids] + Z
    s = float(rng.choice([0.01, 1.0, 1.0, 30.0]))
    X *= s
    perm = rng.permutation(len(ids))
    X, true = np.ascontiguousarray(X[perm]), ids[perm]
    ctx.meta = dict(kind="ranking", k=k, d=d, size=size, N=len(true))
    ctx.sign(X, true)
    merged = true.copy()
    a, b = rng.choice(k, 2, replace=False)
    merged[merged == a] = b
    split = true.copy()
    m = np.flatnonzero(true == a)
    split[rng.permutation(m)[: len(m) // 2]] = k
    scr = true[rng.permutation(len(true))]
    alts = dict(merged=merged, split=split, scrambled=scr)
    names = common.usable(NAMES, X)
    if big:
        names = tuple(n for n in names if NAMES.index(n) % 3 == case // 25 % 3)

    def observe(labels):
        idx, kk = ref.dense(labels)
        o = ref.Oracle(X, idx, kk, names)
        out = {}
        for name in names:
            out[name] = (batch(tr, name, X, np.asarray(labels)),
                         common.inc_values(tr, name, X, [int(l) for l in labels])[-1])
        return o, out
    ot, vt = observe(true)
    for how, labels in alts.items():
        oa, va = observe(labels)
        for name in names:
            if how not in WRONG[name]:
                continue
            sign = 1.0 if name in HIGH else -1.0
            if name not in ot:
                tr.skipped += 1
                continue
            t = ot.val[name]
            al = oa.val.get(name)
            if al is None or not sign * (t - al) > 0.01 * max(abs(t), abs(al)) or (name == "rCIP" and al < 1e-200):
                tr.skipped += 1
                tr.tag("undecided_%s_%s" % (name, how))
                if al is not None and not sign * (t - al) > 0:
                    tr.tag("contrary_%s_%s" % (name, how))
                continue
            for mode in (0, 1):
                tr.decided += 1
                if not sign * (vt[name][mode] - va[name][mode]) > 0:
                    raise Violation("%s (%s) scores the true labelling %r and the %s one %r" % (
                        name, ("batch", "incremental")[mode], float(vt[name][mode]), how, float(va[name][mode])),
                        index=name, X=X, true=true, wrong=labels)
            tr.tag("%s_%s" % (name, how))


def example():
    return dict(directions={n: "higher" if n in HIGH else "lower" for n in NAMES}, wrong=WRONG)
