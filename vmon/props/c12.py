"""Neutral value before two clusters; return value, attribute, type, surface."""
import numpy as np

from .. import gen
from ..target import NAMES, Violation, call, cvi, make, try_call
from . import common

CASES = {"quick": 1500, "thorough": 10000}
CHUNK = 6
RULE = ("A case is a one-label stream (length 1-10500, any geometry, repeats, zeros, any integer label) continued by a "
        "two-or-more-cluster stream, plus a batch, for all nine indices; after every call the returned value, its type "
        "and the attribute are compared, and 0.0 is required until the second label. Distinct by SHA-1 of the stream.")
REQUIRED = dict([("single_" + n, 2000) for n in NAMES] + [("multi_" + n, 2000) for n in NAMES] + [("batch_" + n, 300) for n in NAMES])


def check_value(tr, name, obj, v, what):
    tr.decided += 1
    if isinstance(v, (bool, np.bool_)) or not isinstance(v, (float, np.floating)) or np.ndim(v) != 0:
        raise Violation("%s returned %r of type %s %s, not a real scalar" % (name, v, type(v).__name__, what), index=name)
    a = obj.criterion_value
    if not isinstance(a, (float, np.floating)) or np.ndim(a) != 0:
        raise Violation("%s.criterion_value is %r of type %s %s" % (name, a, type(a).__name__, what), index=name)
    if not (a == v or (a != a and v != v)):
        raise Violation("%s returned %r but criterion_value is %r %s" % (name, v, a, what), index=name)


def surface(tr):
    """The advertised names are the nine indices, listed once each."""
    mods = list(getattr(cvi, "MODULES", []))
    if len(mods) != 9 or set(mods) != set(getattr(cvi, n) for n in NAMES):
        raise Violation("cvi.MODULES is not the list of the nine indices: %r" % (mods,))
    for n in NAMES:
        if n not in cvi.__all__ or not issubclass(getattr(cvi, n), cvi.CVI):
            raise Violation("%s is not an advertised CVI" % n)
        o = make(n)
        tr.decided += 1
        if not isinstance(o.criterion_value, float) or o.criterion_value != 0.0:
            raise Violation("fresh %s has criterion_value %r" % (n, o.criterion_value), index=n)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    surface(tr)
    size = str(rng.choice(["tiny", "small", "medium"]))
    if case % 40 == 1:
        size = gen.RARE[case // 40 % len(gen.RARE)]
    X, labels, meta = gen.stream(rng, size=size)
    d = X.shape[1]
    n1 = int(rng.choice([1, 2, 3, 5, 12, 40, 130])) if case % 30 else (300, 600, 1100, 2600, 4200, 10500)[case // 30 % 6]
    X1 = gen.points(rng, [0] * n1, 1, d, str(rng.choice(gen.GEOMETRIES))) * meta["scale"] + meta["offset"] * meta["scale"]
    if rng.random() < 0.3:
        X1[:] = X1[0] if rng.random() < 0.5 else 0.0
    elif rng.random() < 0.5:
        X1 = gen.spice(rng, X1, [0] * n1)
    names_map = gen.rename(rng, meta["k"], str(rng.choice(gen.LABEL_POOLS)))
    named = [names_map[i] for i in labels]
    X = np.vstack([X1, X])
    named = [named[0]] * n1 + named
    meta["kind"] = n1
    ctx.meta = meta
    ctx.sign(X, named)
    f2 = common.first_two(named) or len(named) + 1
    for name in common.usable(NAMES, X):
        obj = make(name)
        for i in range(len(named)):
            v = call(tr, obj, X[i], gen.as_int(rng, named[i]), name)
            check_value(tr, name, obj, v, "after sample %d" % (i + 1))
            if i + 1 < f2:
                tr.tag("single_" + name)
                if not v == 0.0:
                    raise Violation("%s returned %r with a single cluster (sample %d)" % (name, v, i + 1), index=name,
                                    **common.witness(X, named, i + 1))
            else:
                tr.tag("multi_" + name)
            if rng.random() < 0.05:
                _, e = try_call(tr, obj, np.zeros((1, 1, 1)), 0)
                a = obj.criterion_value
                if e is not None and not (a == v or (a != a and v != v)):
                    raise Violation("%s: criterion_value changed by a rejected call" % name, index=name)
        if meta["k"] > 1:
            obj = make(name)
            v = call(tr, obj, X, gen.int_array(rng, named), name)
            check_value(tr, name, obj, v, "after a batch")
            tr.tag("batch_" + name)


def example():
    return common.example_stream()
