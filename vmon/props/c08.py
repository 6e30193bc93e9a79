"""Translation, rigid motion, scaling and constant-feature laws."""
import numpy as np

from .. import gen, ref
from ..target import NAMES, batch, call, make
from . import common

CASES = {"quick": 1400, "thorough": 9000}
CHUNK = 4
RULE = ("A case is one stream and its image under a translation (up to 1e6 times the spread), an orthogonal map "
        "(rotation, reflection, feature permutation, sign flips), a scaling (1e-30 to 1e30) or an added constant feature; "
        "both are run in both modes and compared at several prefixes through the law of each index. Distinct by SHA-1 "
        "of both data sets.")
ASSUMPTIONS = ["a pair gives no verdict where either data set makes the index undefined or ill conditioned"]
KINDS = ("translate", "farshift", "rotate", "permute", "flip", "scale", "constant")
REQUIRED = dict([("law_%s_%s" % (k, n), 20) for k in KINDS for n in NAMES
                 if not (n == "rCIP" and k in ("scale", "constant"))])


def transform(rng, X, kind):
    """(image, scale factor s)"""
    N, d = X.shape
    spread = float(np.abs(X - X.mean(axis=0)).max()) or 1.0
    if kind == "translate":
        return X + rng.normal(size=d) * spread * rng.choice([0.5, 5.0, 100.0]), 1.0
    if kind == "farshift":
        return X + rng.choice([-1.0, 1.0], size=d) * spread * rng.choice([1e4, 1e5, 1e6]), 1.0
    if kind == "rotate":
        Q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        return X @ Q, 1.0
    if kind == "permute":
        return np.ascontiguousarray(X[:, rng.permutation(d)]), 1.0
    if kind == "flip":
        return X * rng.choice([-1.0, 1.0], size=d) if rng.random() < 0.5 else -X, 1.0
    if kind == "scale":
        s = float(rng.choice([1e-6, 1e-4, 0.1, 0.5, 3.0, 10.0, 1e3, 1e6, 1e-30, 1e-15, 1e15, 1e30]))
        return X * s, s
    if kind == "constant":
        c = float(rng.choice([0.0, 1.0, -7.5, 1e3]))
        j = int(rng.integers(0, d + 1))
        return np.insert(X, j, c, axis=1), 1.0
    raise KeyError(kind)


def large(ctx, kind):
    rng, tr = ctx.rng, ctx.tr
    X, ids, k, keep, o = common.bulk(ctx, NAMES)
    Y, s = transform(rng, X, kind)
    keep = [n for n in common.usable(keep, Y) if not (n == "rCIP" and kind in ("scale", "constant"))]
    ctx.sign(X, Y, ids)
    oy = ref.Oracle(Y, ref.dense(ids)[0], k, keep)
    for name in keep:
        f = 1.0 / s if name == "GD43" else 1.0
        va, vb = batch(tr, name, X, ids), batch(tr, name, Y, ids)
        if name in o:
            common.expect_same(tr, va * f, vb, oy, name, "%s, batch of %d" % (kind, len(X)), extra=2 * o.tol[name] * f,
                               meta=ctx.meta)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 40 == 30:
        return large(ctx, KINDS[case // 40 % len(KINDS)])
    kind = KINDS[case % len(KINDS)]
    X, labels, meta = gen.stream(rng, size=gen.rare(case) or str(rng.choice(
        ["tiny", "small", "medium", "wide", "many", "large"], p=[.2, .43, .24, .06, .04, .03])),
                                 geometry="aniso" if kind == "rotate" and rng.random() < 0.5 else None)
    Y, s = transform(rng, X, kind)
    meta["kind"] = kind
    ctx.meta = meta
    ctx.sign(X, Y, labels)
    names = [n for n in common.affordable(rng, common.usable(NAMES, X, Y), meta, 2, case) if not (n == "rCIP" and kind in ("scale", "constant"))]
    pts = gen.checkpoints(rng, labels, 12)
    watch = common.Watch(pts, 10)
    PX, PY = common.Prefixes(X, labels, names), common.Prefixes(Y, labels, names)
    lab = np.array(labels)
    bp = set(int(p) for p in rng.choice(pts, 3)) | {pts[-1]} if pts else set()
    for name in names:
        f = 1.0 / s if name == "GD43" else 1.0
        a, b = make(name), make(name)
        for i in range(len(labels)):
            va = call(tr, a, X[i], labels[i], name)
            vb = call(tr, b, Y[i], labels[i], name)
            p = i + 1
            if not watch.wants(tr, name, p, va * f, vb, name):
                continue
            ox, oy = PX.at(p), PY.at(p)
            if name not in ox or name not in oy:
                tr.skipped += 1
                continue
            w = dict(X=X[:p], image=Y[:p], labels=labels[:p], law=kind, s=s)
            extra = 2 * ox.tol[name] * f
            common.expect_same(tr, va * f, vb, oy, name, "%s, incremental, %d samples" % (kind, p), extra=extra, **w)
            if p in bp:
                xa, xb = batch(tr, name, X[:p], lab[:p]), batch(tr, name, Y[:p], lab[:p])
                common.expect_same(tr, xa * f, xb, oy, name, "%s, batch of %d" % (kind, p), extra=extra, **w)
            tr.tag("law_%s_%s" % (kind, name))


def example():
    return common.example_stream()
