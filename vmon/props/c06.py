"""Labels are names: injective relabellings, all integer carriers."""
import numpy as np

from .. import gen
from ..target import NAMES, batch, call, make
from . import common

CASES = {"quick": 700, "thorough": 8000}
CHUNK = 4
RULE = ("A case is one stream with canonical labels and an injectively renamed copy (negative, sparse, 64-bit, colliding "
        "in narrow or hashed ids, permuted; one sample at a time also beyond 64 bits), the renamed labels of the stream carried by randomly chosen Python/NumPy "
        "integer types per sample and the batch labels by a random integer dtype; one case in 40 is a single large batch (up to 140 thousand samples, 530 clusters), one in 90 an object given 1300-5000 arbitrary names; values compared step by step with the "
        "canonical run, and with the definition. Distinct by SHA-1 of samples, partition and names.")
ASSUMPTIONS = ["the labels of a batch fit in one 64-bit integer type", "prefixes on which the index is undefined or ill conditioned give no verdict"]
REQUIRED = dict([("inc_" + n, 200) for n in NAMES] + [("batch_" + n, 100) for n in NAMES] +
                [("pool_" + p, 10) for p in gen.LABEL_POOLS if p != "identity"] +
                [("beyond_64_bits", 20), ("register_inc", 4), ("register_batch", 4)])


def large(ctx, pool):
    rng, tr = ctx.rng, ctx.tr
    X, ids, k, keep, o = common.bulk(ctx, NAMES)
    names_map = gen.rename(rng, k, pool)
    named = [names_map[i] for i in ids]
    ctx.sign(X, ids, names_map)
    nl = gen.int_array(rng, named)
    for name in keep:
        va, vb = batch(tr, name, X, ids), batch(tr, name, X, nl)
        common.expect_same(tr, va, vb, o, name, "labels %s renamed (batch of %d, %s)" % (pool, len(X), nl.dtype), meta=ctx.meta)
        common.expect(tr, vb, o, name, "renamed labels %s, batch" % pool, meta=ctx.meta)


def register(ctx, case):
    """Thousands of arbitrary names in one object: any folding of names makes some of them meet."""
    rng, tr = ctx.rng, ctx.tr
    name = ("CH", "WB")[case % 2]
    steps = case // 175 % 2 == 0
    k = int(rng.integers(1300, 1600)) if steps else int(rng.integers(4000, 5000))
    span = int(rng.choice([10 ** 8, 2 ** 31, 2 ** 53, 2 ** 62])) if k < 4000 else 2 ** 62
    vals = [int(v) for v in rng.integers(-span, span, k)]
    vals = list(dict.fromkeys(vals))
    k = len(vals)
    ids = np.concatenate([rng.permutation(k), rng.integers(0, k, 80)])
    X = np.ascontiguousarray(rng.uniform(-50, 50, size=(k, 1))[ids] + rng.normal(size=(len(ids), 1)))
    ctx.meta = dict(kind="register", size="register", N=len(ids), k=k, d=1)
    ctx.sign(X, ids, vals)
    P = common.Prefixes(X, list(ids), (name,))
    o = P.at(len(ids))
    if steps:
        obj = make(name)
        for i in range(len(ids)):
            v = call(tr, obj, X[i], gen.as_int(rng, vals[ids[i]]), name)
        common.expect(tr, v, o, name, "%d arbitrary labels up to %d, incremental" % (k, span))
    else:
        common.expect(tr, batch(tr, name, X, np.array([vals[i] for i in ids])), o, name, "%d arbitrary labels, batch" % k)
    tr.tag("register_" + ("inc" if steps else "batch"))


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 175 in (20, 90):
        return register(ctx, case)
    if case % 40 == 30:
        return large(ctx, str(rng.choice(gen.LABEL_POOLS[1:])))
    kw = {}
    if case % 60 == 3:
        kw = dict(size="many", k=int(rng.choice([90, 130, 200, 270])), N=600)
    X, labels, meta = gen.stream(rng, **(kw or dict(size=gen.rare(case))))
    pool = gen.LABEL_POOLS[1 + case % (len(gen.LABEL_POOLS) - 1)]
    names_map = gen.rename(rng, meta["k"], pool)
    named = [names_map[i] for i in labels]
    meta["kind"] = pool
    ctx.meta = meta
    ctx.sign(X, labels, named)
    tr.tag("pool_" + pool)
    pts = gen.checkpoints(rng, labels, 16)
    watch = common.Watch(pts)
    names = common.affordable(rng, common.usable(NAMES, X), meta, 2, case)
    P = common.Prefixes(X, labels, names)
    stepped = named
    if pool in ("hashy", "unsigned") and rng.random() < 0.5:
        cross = gen.crossing(rng, meta["k"])
        stepped = [cross[i] for i in labels]
        tr.tag("beyond_64_bits")
    for name in names:
        a, b = make(name), make(name)
        for i in range(len(labels)):
            va = call(tr, a, X[i], labels[i], name)
            vb = call(tr, b, X[i], gen.as_int(rng, stepped[i]), name)
            if watch.wants(tr, name, i + 1, va, vb, name):
                o = P.at(i + 1)
                w = common.witness(X, stepped, i + 1)
                common.expect_same(tr, va, vb, o, name, "labels %s renamed (sample %d)" % (pool, i + 1), **w)
                common.expect(tr, vb, o, name, "renamed labels %s, incremental" % pool, **w)
                if name in o:
                    tr.tag("inc_" + name)
    lab = np.array(labels)
    some = sorted(set(int(p) for p in rng.choice(pts, 4)) | {pts[-1]}) if pts else []
    for p in some:
        o = P.at(p)
        nl = gen.int_array(rng, named[:p])
        w = common.witness(X, named, p)
        for name in names:
            va = batch(tr, name, X[:p], lab[:p])
            vb = batch(tr, name, X[:p], nl)
            common.expect_same(tr, va, vb, o, name, "labels %s renamed (batch of %d, %s)" % (pool, p, nl.dtype), **w)
            common.expect(tr, vb, o, name, "renamed labels %s, batch" % pool, **w)
            if name in o:
                tr.tag("batch_" + name)


def example():
    rng = np.random.default_rng(0)
    return dict(example_names=[gen.rename(rng, 4, p) for p in gen.LABEL_POOLS])
