"""Order independence in both modes."""
import numpy as np

from .. import gen
from ..target import NAMES, batch
from . import common

CASES = {"quick": 900, "thorough": 6000}
CHUNK = 4
RULE = ("A case is one labelled data set consumed in 5 orders (as generated, random, cluster by cluster, clusters "
        "interleaved, one cluster held back to the end / one sample of an old cluster last) in both modes; one case in 40 is a single large batch, one in 20 a batch of clusters whose sizes are on or beside powers of two and round numbers; final values "
        "compared pairwise with the first order and with the definition. Distinct by SHA-1 of data and orders.")
ASSUMPTIONS = ["data sets on which the index is undefined or ill conditioned give no verdict"]
REQUIRED = dict([("inc_" + n, 300) for n in NAMES] + [("batch_" + n, 300) for n in NAMES])


def orders(rng, labels):
    ids = np.array(labels)
    N = len(ids)
    out = {"random": rng.permutation(N)}
    sh = rng.permutation(N)
    rank = {int(c): r for r, c in enumerate(rng.permutation(np.unique(ids)))}
    out["blocked"] = np.array(sorted(sh, key=lambda i: rank[int(ids[i])]))
    seen = {}
    pos = {}
    for i in sh:
        c = int(ids[i])
        pos[int(i)] = seen.get(c, 0)
        seen[c] = seen.get(c, 0) + 1
    out["interleaved"] = np.array(sorted(sh, key=lambda i: (pos[int(i)], rank[int(ids[i])])))
    c = int(rng.choice(np.unique(ids)))
    out["heldback"] = np.array([i for i in sh if ids[i] != c] + [i for i in sh if ids[i] == c])
    one = int(sh[0])
    out["lastone"] = np.array([i for i in out["blocked"] if i != one] + [one])
    out["reversed"] = np.arange(N)[::-1]
    return out


def large(ctx, kind=None):
    rng, tr = ctx.rng, ctx.tr
    X, ids, k, keep, o = common.bulk(ctx, NAMES, 3 if kind is None else 9, kind)
    perm = rng.permutation(len(ids)) if rng.random() < 0.6 else np.argsort(ids, kind="stable")[::-1]
    ctx.sign(X, ids, perm)
    Y, lab = np.ascontiguousarray(X[perm]), ids[perm]
    for name in keep:
        va, vb = batch(tr, name, X, ids), batch(tr, name, Y, lab)
        common.expect_same(tr, va, vb, o, name, "reordered batch of %d" % len(X), meta=ctx.meta)
        common.expect(tr, vb, o, name, "reordered batch of %d" % len(X), meta=ctx.meta)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 40 == 30:
        return large(ctx)
    if case % 20 == 5:
        return large(ctx, "edges")
    X, labels, meta = gen.stream(rng, size=gen.rare(case))
    if meta["k"] < 2:
        return
    ords = orders(rng, labels)
    keys = list(rng.choice(list(ords), 4, replace=False))
    ctx.meta = dict(meta, kind="+".join(sorted(map(str, keys))))
    ctx.sign(X, labels, [ords[k].tolist() for k in keys])
    o = common.Prefixes(X, labels).at(len(labels))
    lab = np.array(labels)
    for name in common.affordable(rng, common.usable(NAMES, X), meta, 5, case):
        base_i = common.inc_values(tr, name, X, labels)[-1]
        base_b = batch(tr, name, X, lab)
        for key in keys:
            perm = ords[key]
            Xp, lp = X[perm], lab[perm]
            vi = common.inc_values(tr, name, Xp, [int(l) for l in lp])[-1]
            vb = batch(tr, name, Xp, lp)
            w = dict(common.witness(Xp, lp), order=str(key))
            common.expect_same(tr, base_i, vi, o, name, "incremental, order %s" % key, **w)
            common.expect_same(tr, base_b, vb, o, name, "batch, order %s" % key, **w)
            common.expect(tr, vi, o, name, "incremental, order %s" % key, **w)
            if name in o:
                tr.tag("inc_" + name)
                tr.tag("batch_" + name)
                tr.tag("order_" + str(key))


def example():
    return common.example_stream()
