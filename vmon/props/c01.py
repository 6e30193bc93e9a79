"""Incremental = batch at every checked prefix, all nine indices."""
import numpy as np

from .. import gen
from ..target import NAMES, batch, call, make
from . import common

CASES = {"quick": 900, "thorough": 6000}
CHUNK = 4
RULE = ("A case is one generated labelled stream fed to all nine indices; at every prefix of short streams, and around "
        "new clusters, at random points and at the end of long ones, a fresh object gets the prefix as one batch and "
        "the two observed values are compared; one case in 50 follows one index over 66-70 thousand samples or 270-400 "
        "clusters. Non-trivial if some pair was decided. Distinct by SHA-1 of the stream.")
ASSUMPTIONS = ["prefixes on which the index is undefined or ill conditioned (oracle tolerance above 1e-3) give no verdict"]
REQUIRED = {"pairs_" + n: 300 for n in NAMES}


def long_run(ctx, name):
    """One index over tens of thousands of samples or hundreds of clusters."""
    rng, tr = ctx.rng, ctx.tr
    if rng.random() < 0.6:
        N, k, d = int(rng.integers(66000, 70000)), int(rng.integers(2, 5)), int(rng.integers(1, 4))
    else:
        k = 130 if name == "cSIL" else int(rng.choice([270, 400]))
        N, d = 3 * k, int(rng.integers(1, 4))
    ids = np.concatenate([np.arange(k), rng.integers(0, k, N - k)])
    if rng.random() < 0.5:
        ids = rng.permutation(ids)
    C = rng.uniform(-40, 40, size=(k, d)) if k > 10 else 5.0 * rng.normal(size=(k, d))
    X = np.ascontiguousarray(C[ids] + rng.normal(size=(N, d)))
    labels = [int(i) for i in ids]
    ctx.meta = dict(size="verylong", N=N, k=k, d=d, kind=name)
    ctx.sign(X, labels)
    f2 = common.first_two(labels)
    pts = {N} | set(p for p in (257, 1025, 4097, 16385, 32769, 65537) if f2 <= p <= N)
    pts |= set(int(p) for p in rng.integers(f2, N + 1, 4))
    P = common.Prefixes(X, labels, (name,))
    shadow = common.Shadow((name,))
    watch = common.Watch(pts, 6)
    obj = make(name)
    for i in range(N):
        v = call(tr, obj, X[i], labels[i], name)
        shadow.step(X[i], labels[i])
        p = i + 1
        if p >= f2 and watch.wants(tr, name, p, v, shadow.value(name), name):
            o = P.at(p)
            common.expect_same(tr, v, batch(tr, name, X[:p], ids[:p]), o, name,
                               "incremental and batch after %d samples" % p, meta=ctx.meta)
            P._c.clear()
            if name in o:
                tr.tag("pairs_" + name)
                tr.tag("long_pairs")


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 50 == 20:
        return long_run(ctx, NAMES[case // 50 % 9])
    X, labels, meta = gen.stream(rng, size=gen.rare(case))
    ctx.meta = meta
    ctx.sign(X, labels)
    pts = gen.checkpoints(rng, labels, 20)
    P = common.Prefixes(X, labels)
    if rng.random() < 0.6:
        names_map = gen.rename(rng, meta["k"], str(rng.choice(gen.LABEL_POOLS)))
        labels = [names_map[i] for i in labels]
    typed = bool(rng.random() < 0.3)
    got = {}
    names = common.usable(NAMES, X)
    names = common.affordable(rng, names, meta, 1, case)
    watch = common.Watch(pts)
    shadow = common.shadow_values(X, labels, names)
    for name in names:
        obj = make(name)
        for i in range(len(labels)):
            v = call(tr, obj, X[i], gen.as_int(rng, labels[i]) if typed else labels[i], name)
            if watch.wants(tr, name, i + 1, v, shadow[name][i], name):
                got[name, i + 1] = v
    for p in sorted(set(p for _, p in got)):
        o = P.at(p)
        for name in names:
            if (name, p) not in got:
                continue
            b = batch(tr, name, X[:p], gen.int_array(rng, labels[:p]))
            common.expect_same(tr, got[name, p], b, o, name, "incremental and batch after %d samples" % p,
                               **common.witness(X, labels, p))
            if name in o:
                tr.tag("pairs_" + name)


def example():
    return common.example_stream()
