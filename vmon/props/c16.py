"""Long streams, many clusters: no drift, loss or double counting."""
import numpy as np

from .. import gen, ref
from ..target import NAMES, call, make
from . import common

CASES = {"quick": 162, "thorough": 990}
CHUNK = 1
KINDS = ("long", "drifting", "verylong", "manyclusters", "lopsided", "quiet", "revisit", "wide", "mirror")
RULE = ("A case is one index and one long stream: 8-15 thousand samples in a few clusters, 66-135 thousand samples, 80-300 "
        "clusters, clusters whose location drifts, one dominant cluster, clusters that stay quiet for thousands of "
        "samples and return, clusters revisited in long blocks, or integer samples that often hit the exact centre of their cluster; every call is made on the real object and about 14 "
        "prefixes (around powers of two, at random and at the end) are compared with the definition over all samples "
        "so far. Distinct by SHA-1 of the stream.")
ASSUMPTIONS = ["the tolerance grows linearly with the number of samples (40 x the value's own sensitivity to a coordinate "
               "perturbation of 1e-13 + 2e-15 N)", "streams beyond 6e5 samples are not run"]
REQUIRED = dict([("inc_" + n, 60) for n in NAMES] + [("kind_" + k, 9) for k in KINDS])


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    name = NAMES[case % 9]
    kind = KINDS[(case // 9) % len(KINDS)]
    big = ctx.tier == "thorough"
    d = int(rng.choice([1, 2, 3, 5]))
    k = int(rng.integers(2, 9))
    N = int(rng.integers(8000, 15000)) * (2 if big else 1)
    spread = float(rng.choice([0.3, 1.0, 3.0]))
    dominant = kind == "verylong" and (case // 81) % 2 == 0
    if kind == "verylong":
        N = int(rng.integers(66600, 75000) if not dominant else rng.integers(100500, 135000))
        N = N if not big else int(rng.integers(66600, 600000 if name != "cSIL" else 300000))
        k, d = int(rng.integers(2, 4)), int(rng.integers(1, 4))
    if kind == "manyclusters":
        k = int(rng.choice([70, 110, 160, 270, 520] if not big else [80, 150, 270, 520, 1030]))
        N = k * int(rng.integers(4, 9))
    if kind == "wide":
        d, N = int(rng.choice([16, 30])), 5000
    C = rng.normal(size=(k, d)) * 6.0
    if kind == "manyclusters":
        C = rng.uniform(-40, 40, size=(k, d))
    if dominant:                     # one cluster beyond 65536 samples
        ids = np.zeros(N, int)
        ids[rng.choice(N, 300, replace=False)] = rng.integers(1, k, 300)
    elif kind == "lopsided":
        p = np.full(k, 0.002)
        p[0] = 1 - p[1:].sum()
        ids = rng.choice(k, N, p=p)
    elif kind == "quiet":
        ids = np.concatenate([np.arange(k), rng.integers(1, k, N - k - 40) if k > 1 else [], np.zeros(20, int),
                              rng.integers(0, k, 20)]).astype(int)
    elif kind == "revisit":
        ids = np.repeat(rng.integers(0, k, N // 200 + 1), 200)[:N]
    elif kind == "manyclusters":
        ids = np.array(gen.label_sequence(rng, N, k, str(rng.choice(["random", "upfront", "bursts", "blocked", "late"]))))
    else:
        ids = rng.integers(0, k, N)
    N = len(ids)
    X = C[ids] + spread * rng.normal(size=(N, d))
    if kind == "mirror":             # exact values, many samples exactly at the centre of their cluster
        X = gen.points(rng, ids, k, d, "mirror")
    if kind == "drifting":
        X += np.linspace(0, float(rng.choice([3.0, 30.0])), N)[:, None] * rng.normal(size=(k, d))[ids]
    if rng.random() < 0.3:
        X += float(rng.choice([10.0, 1000.0]))
    labels = gen.rename(rng, k, str(rng.choice(["identity", "negative", "sparse"])))
    named = [labels[i] for i in ids]
    idx, kk = ref.dense(named)
    ctx.meta = dict(kind="%s %s" % (kind, name), N=N, k=kk, d=d, size=kind)
    ctx.sign(X, named)
    f2 = common.first_two(named)
    if f2 is None:
        return
    # about a dozen prefixes: around powers of two, at random, just after
    # clusters appear, and the end
    cand = {N, N - 1}
    pw = [2 ** e + 1 for e in range(7, 19) if f2 <= 2 ** e + 1 <= N]
    cand.update(pw[-4:])
    cand.update(int(p) for p in rng.integers(f2, N + 1, 6))
    news = np.flatnonzero(np.concatenate([[True], np.maximum.accumulate(idx)[1:] > np.maximum.accumulate(idx)[:-1]])) + 1
    cand.update(int(p) for p in rng.choice(news, min(4, len(news)), replace=False) if p >= f2)
    P = common.Prefixes(X, named, (name,))
    obj = make(name)
    shadow = common.Shadow((name,))
    watch = common.Watch(cand, 6)
    for i in range(N):
        v = call(tr, obj, X[i], named[i], name)
        shadow.step(X[i], named[i])
        if i + 1 >= f2 and watch.wants(tr, name, i + 1, v, shadow.value(name), name):
            o = P.at(i + 1)
            common.expect(tr, v, o, name, "%s stream, sample %d of %d" % (kind, i + 1, N), kind=kind)
            P._c.clear()
            if name in o:
                tr.tag("inc_" + name)
                tr.tag("kind_" + kind)


def example():
    return dict(example_kinds=KINDS)
