"""Pieces shared by several property monitors."""
import numpy as np

from .. import gen, ref
from ..shadow import Shadow, Watch, differs  # noqa: F401
from ..target import NAMES, Violation, batch, call, make


def first_two(labels):
    """Length of the shortest prefix with two distinct labels."""
    for i, l in enumerate(labels):
        if l != labels[0]:
            return i + 1
    return None


def inc_values(tr, name, X, labels, obj=None):
    obj = obj or make(name)
    return [call(tr, obj, X[i], labels[i], name) for i in range(len(labels))]


def dense_array(labels):
    idx, k = ref.dense(labels)
    return idx, k


def usable(names, *data):
    """The indices that are specified for all the data sets."""
    return tuple(n for n in names if n != "rCIP" or all(gen.rcip_safe(X) for X in data))


def shadow_values(X, labels, names=NAMES):
    """name -> the shadow's value after every sample."""
    s = Shadow(names)
    out = {n: np.empty(len(labels)) for n in names}
    for i in range(len(labels)):
        s.step(X[i], labels[i])
        for n in names:
            out[n][i] = s.value(n)
    return out


def affordable(rng, names, meta, runs=1, case=None, every=gen.EVERY):
    """All the names, or three of them where the stream makes runs expensive
    (in turn, so that each name meets each extreme size)."""
    cost = runs * meta["N"] * (1 + meta["k"] / 20.0) * (1 + meta["d"] / 30.0)
    if cost < 6000 or len(names) <= 3 or cost < 12000 and meta.get("size") in ("quiet", "stuck"):
        return tuple(names)
    if case is not None and meta.get("size") in gen.RARE:
        third = case // every // len(gen.RARE) % 3
        return tuple(n for n in names if NAMES.index(n) % 3 == third)
    keep = set(rng.choice(len(names), 3, replace=False))
    return tuple(n for i, n in enumerate(names) if i in keep)


def bulk(ctx, names, pick=3, kind=None):
    """A large data set for batch calls: (X, ids, k, the names to run, oracle)."""
    rng = ctx.rng
    kind = kind or gen.BULK[int(rng.integers(len(gen.BULK)))]
    keep = [n for n in names if n in rng.choice(names, min(pick, len(names)), replace=False)]
    if kind == "clusters" and "cSIL" in keep and len(keep) > 1 and rng.random() < 0.6:
        keep.remove("cSIL")        # its batch takes the square of the clusters times the samples
    X, ids, meta = gen.bulk(rng, kind, few="cSIL" in keep)
    keep = usable(keep, X)
    idx, k = ref.dense(ids)
    meta["kind"] = "bulk " + meta["kind"]
    ctx.meta = meta
    ctx.tr.tag("bulk")
    return X, ids, k, keep, ref.Oracle(X, idx, k, keep)


class Prefixes:
    """Oracles of chosen prefixes of one stream, computed on demand."""

    def __init__(self, X, labels, names=NAMES, growth=1.0):
        self.X, self.labels = X, labels
        self.idx, self.k = ref.dense(labels)
        self.names = names
        self.growth = growth
        self._c = {}

    def at(self, p):
        if p not in self._c:
            k = int(self.idx[:p].max()) + 1
            self._c[p] = ref.Oracle(self.X[:p], self.idx[:p], k, self.names, growth=self.growth)
        return self._c[p]


def expect(tr, got, o, name, what, **w):
    """`got` must be the oracle's value for `name` where it has one."""
    if name not in o:
        tr.skipped += 1
        return
    tr.decided += 1
    v, t = o.val[name], o.tol[name]
    if not ref.agree(got, v, t):
        raise Violation("%s: %s is %r, definition gives %.17g (tolerance %.3g)" % (what, name, float(got), v, t),
                        index=name, got=float(got), expected=v, tol=t, **w)


def expect_same(tr, a, b, o, name, what, factor=2.0, scale=1.0, extra=0.0, **w):
    """Two observed values must agree where the oracle says it is well conditioned."""
    if name not in o:
        tr.skipped += 1
        return
    tr.decided += 1
    t = factor * o.tol[name] * scale + extra
    if not ref.agree(a, b, t):
        raise Violation("%s: %s gives %r and %r (tolerance %.3g)" % (what, name, float(a), float(b), t),
                        index=name, a=float(a), b=float(b), tol=t, **w)


class Marked(np.ndarray):
    """A subclass, as callers have them."""


LOANS = ("readonly", "row", "column", "reversed", "every other", "bytearray", "subclass", "readonly row", "slice", "bigendian")


def lend(values, how):
    """(array to hand over, handle through which its owner can overwrite it)"""
    values = np.asarray(values)
    flat = values.ndim == 1
    if how in ("row", "readonly row"):
        home = np.empty((3,) + values.shape, dtype=values.dtype)
        out = handle = home[1]
    elif how == "column":
        home = np.empty(values.shape + (3,), dtype=values.dtype)
        out = handle = home[..., 1]
    elif how == "reversed":
        home = np.empty_like(values)
        out = handle = home[::-1] if flat else home[::-1, ::-1]
    elif how == "every other":
        home = np.empty(values.shape[:-1] + (2 * values.shape[-1],), dtype=values.dtype)
        out = handle = home[..., ::2]
    elif how == "bytearray":
        out = handle = np.frombuffer(bytearray(max(1, values.size) * values.itemsize), dtype=values.dtype)
        out = handle = handle[:values.size].reshape(values.shape)
    elif how == "subclass":
        home = np.empty(values.shape, dtype=values.dtype)
        out, handle = home.view(Marked), home
    elif how == "slice":
        home = np.empty(tuple(n + 2 for n in values.shape), dtype=values.dtype)
        out = handle = home[1:-1] if flat else home[1:-1, 1:-1]
    elif how == "bigendian":
        out = handle = np.empty(values.shape, dtype=values.dtype.newbyteorder(">"))
    else:
        home = np.empty_like(values)
        out = handle = home[:]
    handle[...] = values
    if how.startswith("readonly"):
        out = handle.view()
        out.flags.writeable = False
    return out, handle


def witness(X, labels, p=None):
    p = len(labels) if p is None else p
    return dict(X=np.asarray(X[:p]), labels=list(map(int, labels[:p])), prefix=p)


def example_stream(ctx_seed=1):
    rng = np.random.default_rng(ctx_seed)
    X, l, m = gen.stream(rng, size="tiny")
    return dict(example_stream=dict(X=X.round(4).tolist(), labels=l, meta=m))
