"""Numeric type and memory layout of the arguments are immaterial."""
import numpy as np

from .. import gen, ref
from ..target import NAMES, batch, call, make
from . import common

CASES = {"quick": 700, "thorough": 8000}
CHUNK = 4
RULE = ("A case is one stream of numbers exactly representable in the chosen dtype (integers of every width up to "
        "magnitudes whose squares overflow it, booleans, float32, byte-swapped floats), fed as a batch and "
        "incrementally in that dtype and in random layouts (Fortran, strided, reversed, column-sliced, read-only, "
        "unaligned, transposed, zero-stride), labels likewise; a third of the streams mix dtypes sample by sample (narrow rows between full doubles, a type that changes once, or any type that holds the numbers). Values "
        "compared with the contiguous float64 run and with the definition. Distinct by SHA-1 of numbers and dtype.")
ASSUMPTIONS = ["64-bit integers are numbers that float64 holds exactly"]

DTYPES = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float32", "float64",
          ">f8", ">f4", ">i4", ">i2", "<u4", ">u8")
LAYOUTS = ("C", "F", "strided", "reversed", "columns", "readonly", "unaligned", "transposed", "gap")
REQUIRED = dict([("batch_" + n, 200) for n in NAMES] + [("inc_" + n, 500) for n in NAMES] +
                [("dtype_" + t, 15) for t in DTYPES] + [("layout_" + t, 30) for t in LAYOUTS] + [("mixed", 300), ("patchwork", 1000)])


def unaligned(A):
    raw = np.empty(A.nbytes + 1, dtype=np.uint8)
    B = raw[1:].view(A.dtype).reshape(A.shape)
    B[...] = A
    return B


def layout2(rng, A, how):
    N, d = A.shape
    if how == "F":
        return np.asfortranarray(A)
    if how == "strided":
        B = np.zeros((2 * N, d), A.dtype)
        B[::2] = A
        B[1::2] = 1
        return B[::2]
    if how == "reversed":
        return np.ascontiguousarray(A[::-1, ::-1])[::-1, ::-1]
    if how == "columns":
        B = np.ones((N, 2 * d + 1), A.dtype)
        B[:, 1::2] = A
        return B[:, 1::2]
    if how == "readonly":
        B = A.copy()
        B.flags.writeable = False
        return B
    if how == "unaligned":
        return unaligned(A)
    if how == "transposed":
        return np.ascontiguousarray(A.T).T
    if how == "gap":
        B = np.ones((N + 2, d + 3), A.dtype)
        B[1:-1, 1:d + 1] = A
        return B[1:-1, 1:d + 1]
    return np.ascontiguousarray(A)


def layout1(rng, a, how):
    d = len(a)
    if how == "F" or how == "transposed":      # a row of a Fortran array
        return np.asfortranarray(np.vstack([a, a, a]))[1]
    if how == "strided" or how == "columns":
        B = np.ones(3 * d + 1, a.dtype)
        B[1::3] = a
        return B[1::3]
    if how == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "readonly":
        B = a.copy()
        B.flags.writeable = False
        return B
    if how == "unaligned":
        return unaligned(a)
    if how == "gap" and (a == a[0]).all():
        return np.broadcast_to(a[0], a.shape)
    return a.copy()


def numbers(rng, dt, N, k, d, ids):
    t = np.dtype(dt)
    ids = np.asarray(ids)
    C = rng.normal(size=(k, d)) * rng.choice([0.5, 2.0])
    Z = C[ids] + rng.normal(size=(N, d))
    if t.kind == "b":
        return (Z > 0).astype(t)
    if t.kind == "f":
        return (Z * float(rng.choice([1.0, 50.0, 0.01])) + float(rng.choice([0.0, 100.0]))).astype(t)
    info = np.iinfo(t)
    hi = min(int(info.max), 2 ** 50)
    lo = max(int(info.min), -2 ** 50)
    if t.itemsize == 8 and rng.random() < 0.3:      # the far end of the 64-bit types, still exact in float64
        top = 2.0 ** (63 if t.kind == "u" else 62)
        big = np.round(np.clip(Z / 16.0, -0.9, 0.9) * 2.0 ** 40) / 2.0 ** 40 * top
        return (big + (top if t.kind == "u" else 0.0)).astype(t)
    mag = float(rng.choice([3.0, 20.0, hi / 8.0, min(hi / 8.0, 1e6)]))
    base = 0.0 if lo < 0 else 4 * mag
    if rng.random() < 0.2:
        base += min(hi / 2.0, 4e5)
    return np.clip(np.round(Z * mag + base), lo, hi).astype(t)


def patchwork(rng, N, k, d, ids):
    """Rows that only their own type (or a wider one) holds: (float64 samples, type of each row)."""
    Z = numbers(rng, "float64", N, k, d, ids) * float(rng.choice([1.0, 20.0]))
    two = [np.dtype(DTYPES[int(i)]) for i in rng.choice(len(DTYPES), 2)]
    cut = int(rng.integers(1, max(2, N)))
    style = int(rng.integers(0, 3))
    plan = []
    for i in range(N):
        if style == 0:                 # one type for a while, then another
            t = two[0] if i < min(cut, 1 + N // 4) else np.dtype(np.float64)
        elif style == 1:               # doubles with some rows of another type
            t = two[i % 2] if rng.random() < 0.4 else np.dtype(np.float64)
        else:
            t = two[0] if i < cut else two[1]
        if t.kind == "b":
            row = (Z[i] > 0).astype(float)
        elif t.kind == "f":
            row = Z[i].astype(t).astype(float)
        else:
            info = np.iinfo(t)
            row = np.clip(np.round(Z[i]), float(max(info.min, -2 ** 50)), float(min(info.max, 2 ** 50)))
        Z[i] = row
        plan.append(t)
        assert np.array_equal(row.astype(t).astype(float), row)
    return Z, plan


def label_layout(rng, vals):
    a = gen.int_array(rng, vals)
    r = rng.integers(0, 6)
    if r == 0:
        a = a.astype(a.dtype.newbyteorder(">"))
    elif r == 1:
        b = np.zeros(2 * len(a), a.dtype)
        b[::2] = a
        a = b[::2]
    elif r == 2:
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif r == 3:
        a = a.copy()
        a.flags.writeable = False
    elif r == 4:
        a = unaligned(a)
    return a


def large(ctx, dt):
    """A large batch: sums that overflow or lose digits in the type of the input."""
    rng, tr = ctx.rng, ctx.tr
    _, ids, meta = gen.bulk(rng, str(rng.choice(["rows", "dominated", "clusters", "features"], p=[.4, .3, .15, .15])), few=True)
    A = numbers(rng, dt, meta["N"], meta["k"], meta["d"], ids)
    X = np.ascontiguousarray(A.astype(np.float64))
    ctx.meta = dict(meta, kind="bulk " + dt)
    ctx.sign(X, ids, dt)
    tr.tag("bulk")
    tr.tag("dtype_" + dt)
    names = common.usable([str(n) for n in rng.choice(NAMES, 4, replace=False)], X)
    idx, k = ref.dense(ids)
    o = ref.Oracle(X, idx, k, names)
    how = str(rng.choice(LAYOUTS))
    B = layout2(rng, A, how)
    for name in names:
        va, vb = batch(tr, name, X, ids), batch(tr, name, B, label_layout(rng, [int(i) for i in ids]))
        common.expect_same(tr, va, vb, o, name, "%s %s batch of %d against float64" % (how, dt, len(X)), meta=ctx.meta)
        common.expect(tr, vb, o, name, "%s %s batch of %d" % (how, dt, len(X)), meta=ctx.meta)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 25 == 12:
        return large(ctx, DTYPES[case // 25 % len(DTYPES)])
    dt = DTYPES[case % len(DTYPES)]
    size = gen.rare(case) or str(rng.choice(["tiny", "small", "medium", "large", "wide"], p=[.2, .45, .2, .05, .1]))
    lo, hi, ks, ds = gen.SIZES[size]
    N, k, d = int(rng.integers(lo, hi + 1)), int(rng.choice(ks)), int(rng.choice(ds))
    k = min(k, N)
    labels = gen.label_sequence(rng, N, k, str(rng.choice(gen.PATTERNS)))
    mixed = bool(case % 3 == 0)
    plan = None
    if mixed and rng.random() < 0.6:   # each number in the narrow type of its row, full doubles in between
        dt = "float64"
        A, plan = patchwork(rng, N, k, d, labels)
    else:
        A = numbers(rng, dt, N, k, d, labels)
    X = np.ascontiguousarray(A.astype(np.float64))
    assert np.array_equal(X.astype(A.dtype), A)
    ctx.meta = dict(size=size, N=N, k=k, d=d, kind=dt)
    ctx.sign(X, labels, dt)
    tr.tag("dtype_" + dt)
    pts = gen.checkpoints(rng, labels, 12)
    if not pts:
        return
    names = common.affordable(rng, common.usable(NAMES, X), ctx.meta, 2, case)
    P = common.Prefixes(X, labels, names)
    watch = common.Watch(pts)
    mixes = [np.dtype(t) for t in DTYPES]
    for name in names:
        a, b = make(name), make(name)
        how = str(rng.choice(LAYOUTS))
        tr.tag("layout_" + how)
        for i in range(N):
            va = call(tr, a, X[i], labels[i], name)
            row = A[i]
            if mixed:
                if plan:
                    row = X[i].astype(plan[i])
                    tr.tag("patchwork")
                else:
                    fits = [t for t in mixes if np.array_equal(X[i].astype(t).astype(np.float64), X[i])]
                    row = X[i].astype(fits[int(rng.integers(len(fits)))])
                how = str(rng.choice(LAYOUTS))
                tr.tag("mixed")
            vb = call(tr, b, layout1(rng, np.ascontiguousarray(row), how), gen.as_int(rng, labels[i]), name)
            if watch.wants(tr, name, i + 1, va, vb, name):
                o = P.at(i + 1)
                w = dict(common.witness(X, labels, i + 1), dtype=dt, layout=how, mixed=mixed)
                what = "%s %s samples" % (how, "mixed" if mixed else dt)
                common.expect_same(tr, va, vb, o, name, what + " against float64", **w)
                common.expect(tr, vb, o, name, what + ", incremental", **w)
                if name in o:
                    tr.tag("inc_" + name)
        p = pts[int(rng.integers(len(pts)))] if rng.random() < 0.5 else N
        o = P.at(p)
        how = LAYOUTS[(case + NAMES.index(name)) % len(LAYOUTS)]
        tr.tag("layout_" + how)
        lab = label_layout(rng, labels[:p])
        vb = batch(tr, name, layout2(rng, A[:p], how), lab)
        va = batch(tr, name, X[:p].copy(), np.array(labels[:p]))
        w = dict(common.witness(X, labels, p), dtype=dt, layout=how, labels_dtype=str(lab.dtype))
        common.expect_same(tr, va, vb, o, name, "%s %s batch against float64" % (how, dt), **w)
        common.expect(tr, vb, o, name, "%s %s batch" % (how, dt), **w)
        if name in o:
            tr.tag("batch_" + name)


def example():
    return dict(dtypes=DTYPES, layouts=LAYOUTS)
