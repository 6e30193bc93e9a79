"""Definition monitors (C02-C05): each value at the boundary against the
extended-precision definition on everything the object has been given."""
import numpy as np

from .. import gen
from ..target import batch, call, make
from . import common


def run(ctx, names, stream_kw=None, limit=24):
    rng, tr = ctx.rng, ctx.tr
    X, labels, meta = gen.stream_for(rng, "rCIP" if names == ("rCIP",) else None, **(stream_kw or {}))
    ctx.meta = meta
    ctx.sign(X, labels)
    names_map = gen.rename(rng, meta["k"], str(rng.choice(gen.LABEL_POOLS)))
    named = [names_map[i] for i in labels]
    pts = gen.checkpoints(rng, labels, limit)
    watch = common.Watch(pts)
    shadow = common.shadow_values(X, labels, names)
    P = common.Prefixes(X, labels, names)
    tr.tag("streams")
    for name in names:
        obj = make(name)
        for i in range(len(named)):
            v = call(tr, obj, X[i], named[i], name)
            if watch.wants(tr, name, i + 1, v, shadow[name][i], name):
                common.expect(tr, v, P.at(i + 1), name, "incremental, sample %d of %d" % (i + 1, len(named)),
                              **common.witness(X, named, i + 1))
                tr.tag("inc_verdicts" if name in P.at(i + 1) else "inc_undefined")
    bp = pts if len(pts) <= 8 else sorted(set(int(p) for p in rng.choice(pts, 7)) | {pts[-1]} if pts else [])
    for p in bp:
        lab = gen.int_array(rng, named[:p])
        for name in names:
            v = batch(tr, name, X[:p], lab)
            common.expect(tr, v, P.at(p), name, "batch of %d" % p, **common.witness(X, named, p))
            tr.tag("batch_verdicts" if name in P.at(p) else "batch_undefined")
    for name in names:
        if pts and name in P.at(pts[-1]):
            tr.tag("final_" + name)


def large(ctx, names, kind=None):
    """One batch too large for a step-by-step run."""
    rng, tr = ctx.rng, ctx.tr
    X, ids, k, keep, o = common.bulk(ctx, names, 4, kind)
    names_map = gen.rename(rng, k, str(rng.choice(gen.LABEL_POOLS)))
    ctx.sign(X, ids)
    lab = gen.int_array(rng, [names_map[i] for i in ids])
    for name in keep:
        common.expect(tr, batch(tr, name, X, lab), o, name, "batch of %d" % len(X), meta=ctx.meta)
        tr.tag("bulk_verdicts" if name in o else "bulk_undefined")


def case(ctx, case, names):
    if case % 125 == 60:
        return large(ctx, names)
    if case % 50 == 20:
        return large(ctx, names, "edges")
    if case % 25 == 9:         # a pair that stands out by its size is the closest one
        kw = dict(size="medium", k=int(ctx.rng.choice([4, 6, 8, 10])), N=int(ctx.rng.integers(50, 141)), close=("giants", "dwarfs", "mixed", "ends")[case // 25 % 4])
        if ctx.rng.random() < 0.6:
            kw["pattern"] = "giants"
        return run(ctx, names, kw)
    size = gen.rare(case)
    run(ctx, names, dict(size=size) if size else None)


RULE = ("A case is one generated labelled stream (12 arrival patterns x 14 geometries x 13 size classes, scales, offsets, "
        "planted special samples, 10 label naming schemes) fed sample by sample and, at several prefixes, as a batch; every step is watched by a double-precision shadow model, and planned or suspect steps get a verdict; "
        "one case in 125 is a single batch of 21-140 thousand samples, 270-530 clusters or 200-300 features, one in 50 a batch whose clusters have sizes on or beside powers of two and round numbers; "
        "non-trivial if at least one value was decided against the definition. Distinct by SHA-1 of samples and labels.")
ASSUMPTIONS = ["values are judged only where the definition is non-zero-denominator and conditioned well enough that "
               "round-off perturbation of the samples moves it by less than 1e-3 relative",
               "the reference definitions in vmon/ref.py are right"]
