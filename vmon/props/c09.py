"""Arguments are neither modified nor remembered."""
import numpy as np

from .. import gen
from ..target import NAMES, Violation, call, make, try_call
from . import common

CASES = {"quick": 700, "thorough": 8000}
CHUNK = 4
RULE = ("A case is one stream; every array handed over is fingerprinted (bytes, shape, dtype, flags) before and after the "
        "call, and the run is repeated with hostile callers: one reused buffer, buffers overwritten with garbage after "
        "each call, rows of a matrix that is trashed behind the reader, read-only, strided, reversed, foreign-memory or subclass views of "
        "memory that is overwritten afterwards, batch arrays overwritten before the value is "
        "read. Values are compared step by step with a polite run and with the definition. Distinct by SHA-1 of stream.")
ASSUMPTIONS = ["steps on which the index is undefined or ill conditioned give no verdict on values"]
REQUIRED = dict([("hostile_" + n, 200) for n in NAMES] + [("fingerprints", 5000), ("batch_overwritten", 500), ("refused_fingerprints", 2000)] + [("lent " + f, 20) for f in common.LOANS])


def finger(a):
    return (a.dtype.str, a.shape, a.strides, a.flags.writeable, a.tobytes())


def guarded(tr, obj, data, label, name):
    fd = finger(data)
    fl = finger(label) if isinstance(label, np.ndarray) else None
    v = call(tr, obj, data, label, name)
    tr.tag("fingerprints")
    tr.decided += 1
    if finger(data) != fd:
        raise Violation("%s.get_cvi modified the data array it was given" % name, index=name, shape=list(data.shape))
    if fl is not None and finger(label) != fl:
        raise Violation("%s.get_cvi modified the label array it was given" % name, index=name, shape=list(data.shape))
    return v


def refused(ctx, name, X, lab):
    """Calls that are refused leave the arrays alone too."""
    rng, tr = ctx.rng, ctx.tr
    d = X.shape[1]
    n = min(len(X), int(rng.integers(3, 9)))
    for state in ("fresh", "inc", "batch"):
        obj = make(name)
        bad = [(rng.normal(size=(n, d, 2)), rng.integers(-3, 4, n)), (np.array(2.5), rng.integers(3, 7, n))]
        if state == "fresh":
            bad += [(rng.normal(size=(n, d)), np.full(n, 7)), (rng.normal(size=(n, d)), rng.permutation(n + 1) + 3),
                    (rng.normal(size=(n, d)), rng.permutation(2 * n) - 9)]
        else:
            if state == "inc":
                call(tr, obj, X[0].copy(), 5, name)
                bad += [(rng.normal(size=d + 1), 5)]
            else:
                call(tr, obj, rng.normal(size=(n, d)), np.arange(n) % 2, name)
                bad += [(rng.normal(size=d), 5)]
            bad += [(rng.normal(size=(n, d)), rng.permutation(n) + 3)]
        for data, label in bad:
            fd, fl = finger(data), finger(np.asarray(label))
            try_call(tr, obj, data, label)
            tr.decided += 1
            tr.tag("refused_fingerprints")
            if finger(data) != fd or finger(np.asarray(label)) != fl:
                raise Violation("%s.get_cvi modified an array it was given in a call that it refuses (%s object)" % (name, state),
                                index=name)


def garbage(rng, shape):
    kind = rng.integers(0, 4)
    if kind == 0:
        return np.full(shape, np.nan)
    if kind == 1:
        return np.full(shape, 1e6)
    if kind == 2:
        return np.zeros(shape)
    return rng.normal(size=shape) * 1e3


def large(ctx):
    rng, tr = ctx.rng, ctx.tr
    X, ids, k, keep, o = common.bulk(ctx, NAMES, 4)
    ctx.sign(X, ids)
    names_map = gen.rename(rng, k, str(rng.choice(gen.LABEL_POOLS[1:])))
    for name in keep:
        Xb, lb = X.copy(order=str(rng.choice(["C", "F"]))), gen.int_array(rng, [names_map[i] for i in ids])
        obj = make(name)
        v = guarded(tr, obj, Xb, lb, name)
        Xb[:] = garbage(rng, Xb.shape)
        lb[:] = 0
        tr.tag("batch_overwritten")
        if not (obj.criterion_value == v or v != v):
            raise Violation("%s: criterion_value changed when the caller overwrote its batch" % name, index=name)
        common.expect(tr, v, o, name, "batch of %d" % len(X), meta=ctx.meta)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 50 == 30:
        return large(ctx)
    X, labels, meta = gen.stream(rng, size=gen.rare(case) or str(rng.choice(["tiny", "small", "medium", "many", "wide"], p=[.25, .47, .2, .04, .04])))
    dtype = rng.choice(["f8", "f8", "f8", "f4", "i8", "i2"])
    if dtype != "f8":
        X = np.clip(np.round(X / ((np.abs(X).max() or 1.0) / 120.0)), -120, 120).astype(dtype)
    meta["kind"] = str(dtype)
    ctx.meta = meta
    ctx.sign(X, labels)
    d = X.shape[1]
    pts = set(gen.checkpoints(rng, labels, 30))
    P = common.Prefixes(X.astype(float), labels)
    names_map = gen.rename(rng, meta["k"], str(rng.choice(gen.LABEL_POOLS)))
    labels = [names_map[i] for i in labels]
    lab = gen.int_array(rng, labels)
    watch = common.Watch(pts)
    for name in common.affordable(rng, common.usable(NAMES, X), meta, 5, case):
        polite = make(name)
        reuse, trash, view, borrow = make(name), make(name), make(name), make(name)
        form = str(rng.choice(common.LOANS))
        tr.tag("lent " + form)
        buf = np.empty(d, dtype=X.dtype)
        mat = X.copy()
        for i, l in enumerate(labels):
            v0 = guarded(tr, polite, X[i].copy(), l, name)
            buf[:] = X[i]
            v1 = guarded(tr, reuse, buf, l, name)
            x = X[i].copy()
            v2 = guarded(tr, trash, x, l, name)
            with np.errstate(all="ignore"):
                x[:] = garbage(rng, d)
            v3 = guarded(tr, view, mat[i], l, name)
            lent, handle = common.lend(X[i], form if rng.random() < 0.8 else str(rng.choice(common.LOANS)))
            v4 = guarded(tr, borrow, lent, l, name)
            with np.errstate(all="ignore"):
                mat[:i + 1] = garbage(rng, (i + 1, d))
                handle[...] = garbage(rng, d)
            for o, v in ((reuse, v1), (trash, v2), (view, v3), (borrow, v4)):
                if not (o.criterion_value == v or v != v):
                    raise Violation("%s: criterion_value changed when the caller overwrote its sample" % name, index=name)
            if watch.wants(tr, name, i + 1, v0, next((u for u in (v1, v2, v3, v4) if common.differs(v0, u, name)), v0), name):
                o = P.at(i + 1)
                w = common.witness(X, labels, i + 1)
                for how, v in (("one reused buffer", v1), ("overwritten samples", v2), ("trashed matrix rows", v3),
                               ("overwritten views (%s)" % form, v4)):
                    common.expect_same(tr, v0, v, o, name, "caller with %s, sample %d" % (how, i + 1), **w)
                    common.expect(tr, v, o, name, "caller with %s, sample %d" % (how, i + 1), **w)
                if name in o:
                    tr.tag("hostile_" + name)
        if rng.random() < 0.3:
            refused(ctx, name, X, lab)
        # batch
        if pts:
            p = int(rng.choice(sorted(pts)))
            if rng.random() < 0.5:
                Xb, lb = X[:p].copy(order=str(rng.choice(["C", "F"]))), lab[:p].copy()
                given = Xb, lb
            else:
                lx, Xb = common.lend(X[:p], str(rng.choice(common.LOANS)))
                ll, lb = common.lend(lab[:p], str(rng.choice(common.LOANS)))
                given = lx, ll
            obj = make(name)
            v = guarded(tr, obj, given[0], given[1], name)
            with np.errstate(all="ignore"):
                Xb[...] = garbage(rng, Xb.shape)
            lb[...] = 0
            tr.tag("batch_overwritten")
            after = obj.criterion_value
            if not (after == v or (after != after and v != v)):
                raise Violation("%s: criterion_value changed when the caller overwrote its batch" % name, index=name)
            common.expect(tr, v, P.at(p), name, "batch of %d" % p, **common.witness(X, labels, p))


def example():
    return common.example_stream()
