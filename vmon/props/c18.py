"""Degenerate data never raises and never lingers."""
import numpy as np

from .. import gen, ref
from ..target import NAMES, Violation, batch, call, make, try_call
from . import common

CASES = {"quick": 4000, "thorough": 40000}
CHUNK = 6
RULE = ("A case is a stream (and batches of its prefixes) built from degenerate phases in random order: repeated samples, "
        "one-sample clusters, clusters with coincident means, constant and all-zero features, all clusters single points, "
        "exact integers and halves up to 100, one phase in some cases hundreds of samples long, a fifth of them in small units, followed by generic samples; no call may raise, and every prefix on which "
        "the oracle finds the index defined and well conditioned must match the definition. Distinct by SHA-1.")
ASSUMPTIONS = ["samples of magnitude up to 100 for the no-exception claim"]
REQUIRED = dict([("recovered_" + n, 300) for n in NAMES] + [("undefined_" + n, 100) for n in NAMES if n not in ("rCIP",)] +
                [("batch_" + n, 200) for n in NAMES])


def grid(rng, shape, hi=8):
    return rng.integers(-hi, hi + 1, size=shape) * float(rng.choice([0.5, 1.0, 1.0, 4.0]))


def phase(rng, d, kmax, m=None):
    """A run of (samples, ids) that is degenerate in some way."""
    what = int(rng.integers(0, 9 if m is None else 3))
    m = int(rng.integers(1, 9)) if m is None else m
    if what == 0:                                     # the same sample again and again, one cluster
        return np.tile(grid(rng, d), (m, 1)), [int(rng.integers(kmax))] * m
    if what == 1:                                     # the same sample in different clusters
        return np.tile(grid(rng, d), (m, 1)), [int(c) for c in rng.integers(0, kmax, m)]
    if what == 2:                                     # all zero
        return np.zeros((m, d)), [int(c) for c in rng.integers(0, kmax, m)]
    if what == 3:                                     # mirror pairs: coincident means
        c = grid(rng, d)
        X, l = [], []
        for a in rng.choice(kmax, min(2, kmax), replace=False):
            for _ in range(int(rng.integers(1, 3))):
                z = grid(rng, d)
                X += [c + z, c - z]
                l += [int(a), int(a)]
        return np.array(X), l
    if what == 4:                                     # every cluster a single point
        X = grid(rng, (kmax, d))
        return X, [int(c) for c in rng.permutation(kmax)]
    if what == 5:                                     # points on a line through the origin
        z = grid(rng, d)
        return np.outer(rng.integers(-3, 4, m), z).astype(float), [int(c) for c in rng.integers(0, kmax, m)]
    if what == 6:                                     # constant feature
        X = grid(rng, (m, d))
        X[:, int(rng.integers(d))] = 3.0
        return X, [int(c) for c in rng.integers(0, kmax, m)]
    if what == 7:                                     # two values only
        X = rng.integers(0, 2, size=(m, d)).astype(float)
        return X, [int(c) for c in rng.integers(0, kmax, m)]
    return np.clip(rng.normal(size=(m, d)) * 3, -100, 100), [int(c) for c in rng.integers(0, kmax, m)]


def singular(ctx):
    """Known finding: perfectly correlated features of a magnitude that swallows
    rCIP's regularisation make the covariance singular and the call raise."""
    for mode in ("incremental", "batch"):
        X = np.array([[0.0, 0.0], [1e6, 1e6], [5.0, 5.0]])
        l = [0, 0, 1]
        obj = make("rCIP")
        e = None
        if mode == "incremental":
            for i in range(3):
                _, e = try_call(ctx.tr, obj, X[i], l[i])
        else:
            _, e = try_call(ctx.tr, obj, X, np.array(l))
        if e is not None:
            if not isinstance(e, np.linalg.LinAlgError):
                raise Violation("rCIP raised %r on perfectly correlated features" % (e,), index="rCIP")
            ctx.known.append("rCIP-singular-covariance")


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case == 0:
        singular(ctx)
    d = int(rng.choice([1, 1, 2, 2, 3, 4, 6]))
    kmax = int(rng.choice([2, 2, 3, 4, 6]))
    Xs, ls = [], []
    at = int(rng.integers(0, 3)) if case % 45 == 3 else -1
    for t in range(int(rng.integers(1, 5)) if at < 0 else 3):
        x, l = phase(rng, d, kmax, int(rng.choice([70, 140, 270, 530, 1100])) if t == at else None)
        Xs.append(x)
        ls += l
    if rng.random() < 0.75:
        m = int(rng.integers(kmax, 5 * kmax + 6))
        ids = rng.integers(0, kmax, m)
        Xs.append(np.clip(rng.normal(size=(kmax, d))[ids] * 4 + rng.normal(size=(m, d)), -100, 100))
        ls += [int(c) for c in ids]
    X = np.vstack(Xs)
    if rng.random() < 0.2:
        X[:, int(rng.integers(d))] = float(rng.choice([0.0, 7.0]))
    elif rng.random() < 0.1:
        X = X + 10.0
    if rng.random() < 0.2:             # the same in small units (powers of two: coincidences stay exact)
        X = X * 2.0 ** -float(rng.choice([8, 20, 24, 33, 60]))
        tr.tag("small_units")
    X = np.ascontiguousarray(X)
    ctx.meta = dict(size="degenerate", N=len(ls), k=len(set(ls)), d=d, kind="%d phases" % len(Xs))
    ctx.sign(X, ls)
    P = common.Prefixes(X, ls, NAMES)
    f2 = common.first_two(ls) or len(ls) + 1
    pts = set(gen.checkpoints(rng, ls, 40)) if len(ls) > 150 else None
    some = set(int(p) for p in rng.integers(f2, len(ls) + 1, 4)) | {len(ls)} if f2 <= len(ls) else set()
    for name in NAMES:
        obj = make(name)
        undefined = False
        for i in range(len(ls)):
            v = call(tr, obj, X[i], ls[i], name)
            p = i + 1
            if p < f2 or (pts is not None and p not in pts):
                continue
            o = P.at(p)
            common.expect(tr, v, o, name, "sample %d of a degenerate stream" % p, **common.witness(X, ls, p))
            if name in o:
                if undefined or name == "rCIP":
                    tr.tag("recovered_" + name)
            else:
                undefined = True
                tr.tag("undefined_" + name)
            if p in some:
                b = batch(tr, name, X[:p], np.array(ls[:p]))
                common.expect(tr, b, o, name, "degenerate batch of %d" % p, **common.witness(X, ls, p))
                tr.tag("batch_" + name)


def example():
    rng = np.random.default_rng(3)
    return dict(phases=[[x.tolist(), l] for x, l in (phase(rng, 2, 3) for _ in range(3))])
