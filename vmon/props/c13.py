"""Ranges, finiteness and cross-index identities."""
import numpy as np

from .. import gen
from ..target import NAMES, Violation, batch, call, make
from . import common

CASES = {"quick": 2500, "thorough": 20000}
CHUNK = 4
RULE = ("A case is one stream fed to all nine indices side by side (random, adversarial for the ranges: scrambled labels, "
        "nested clusters, equal clusters, far singletons); after every sample, and for batches, range, finiteness and the "
        "CH*WB identity are checked. Distinct by SHA-1 of the stream.")
ASSUMPTIONS = ["finiteness is demanded only when each cluster holds two distinct samples and means differ by more than "
               "1e-6 of the spread", "ranges are judged where the oracle has a well-conditioned value"]
REQUIRED = dict([("range_" + n, 2000) for n in NAMES] + [("finite_" + n, 1000) for n in NAMES] + [("identity", 1000),
                ("csil_negative", 50), ("gd53_near_half", 20)])


def in_range(name, v, k, slack):
    if name == "cSIL":
        return -1 - slack <= v <= 1 + slack
    if name == "PS":
        return -k - slack <= v <= k + slack
    if name == "GD53":
        return -slack <= v <= 0.5 + slack
    return v >= 0 - slack


def adversarial(rng):
    X, labels, meta = gen.stream(rng, size=str(rng.choice(["tiny", "small", "medium"])))
    kind = rng.integers(0, 4)
    if kind == 0:       # scramble: labels unrelated to geometry
        labels = [int(l) for l in rng.permutation(labels)]
    elif kind == 1:     # congruent clusters: GD53 = 1/2
        k, n, d = int(rng.integers(2, 5)), int(rng.integers(2, 9)), X.shape[1]
        core = rng.normal(size=(n, d))
        C = rng.normal(size=(k, d)) * 5
        X = np.vstack([core + c for c in C])
        labels = [c for c in range(k) for _ in range(n)]
        perm = rng.permutation(len(labels))
        X, labels = X[perm], [labels[i] for i in perm]
    elif kind == 2:     # a cluster inside the hole of another
        n = int(rng.integers(4, 20))
        d = X.shape[1]
        s = rng.normal(size=(n, d))
        s /= np.linalg.norm(s, axis=1)[:, None] + 1e-9
        X = np.vstack([s * 5, rng.normal(size=(n, d)) * 0.1])
        labels = [0] * n + [1] * n
        perm = rng.permutation(2 * n)
        X, labels = X[perm], [labels[i] for i in perm]
    meta.update(N=len(labels), k=len(set(labels)), kind="adv%d" % kind)
    return X, labels, meta


def large(ctx):
    rng, tr = ctx.rng, ctx.tr
    X, ids, k, keep, o = common.bulk(ctx, NAMES, 9 if rng.random() < 0.5 else 4)
    ctx.sign(X, ids)
    vals = {}
    for name in keep:
        v = vals[name] = batch(tr, name, X, ids)
        tr.decided += 1
        if name in o and not (np.isfinite(v) and in_range(name, v, k, o.tol[name])):
            raise Violation("%s = %r is out of its range (batch, k=%d, %d samples)" % (name, v, k, len(X)), index=name,
                            meta=ctx.meta)
    if "CH" in vals and "WB" in vals and "CH" in o and "WB" in o:
        want = k * (len(X) - k) / (k - 1)
        if not abs(vals["CH"] * vals["WB"] - want) <= 1e-6 * want:
            raise Violation("CH*WB = %r, k(N-k)/(k-1) = %r (batch of %d)" % (vals["CH"] * vals["WB"], want, len(X)),
                            meta=ctx.meta)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 40 == 30:
        return large(ctx)
    X, labels, meta = adversarial(rng) if case % 2 else gen.stream(rng, size=gen.rare(case // 2))
    ctx.meta = meta
    ctx.sign(X, labels)
    if meta["k"] < 2:
        return
    N = len(labels)
    pts = gen.checkpoints(rng, labels, 24)
    ptset = set(pts)
    P = common.Prefixes(X, labels)
    vals = {}
    names = common.affordable(rng, common.usable(NAMES, X), meta, 1, case // 2)
    extra = set()
    for name in names:
        obj = make(name)
        for i in range(N):
            v = call(tr, obj, X[i], labels[i], name)
            # every step is screened; planned ones and candidates get a verdict
            if i + 1 in ptset or (i + 1 > pts[0] and not in_range(name, v, N, 1e-6)):
                extra.add(i + 1)
                vals["incremental", name, i + 1] = v
    lab = np.array(labels)
    bp = sorted(set(int(p) for p in rng.choice(pts, 4)) | {pts[-1]})
    for p in bp:
        for name in names:
            vals["batch", name, p] = batch(tr, name, X[:p], lab[:p])
    spread = float(np.abs(X - X[0]).max()) or 1.0
    mag = float(np.abs(X).max())
    for mode, plist in (("incremental", sorted(extra)[:200]), ("batch", bp)):
        for p in plist:
            o = P.at(p)
            s = o.stats
            k = o.k
            # well-formed: every cluster has two distinct samples, means distinct, magnitudes moderate
            well = bool((s.CP > (1e-6 * spread) ** 2).all()) and mag < 1e6 * spread and mag < 1e6 and \
                (k < 2 or float(s.D2[np.triu_indices(k, 1)].min()) > (1e-6 * spread) ** 2)
            w = dict(common.witness(X, labels, p), mode=mode)
            for name in names:
                if (mode, name, p) not in vals:
                    continue
                v = vals[mode, name, p]
                if well:
                    tr.decided += 1
                    tr.tag("finite_" + name)
                    if not np.isfinite(v):
                        # rCIP beyond double range of the determinant is out of scope
                        if not (name == "rCIP" and name not in o):
                            raise Violation("%s is %r (%s, %d samples) on well-formed clusters" % (name, v, mode, p),
                                            index=name, **w)
                if name in o:
                    tr.decided += 1
                    tr.tag("range_" + name)
                    if not in_range(name, v, k, o.tol[name]):
                        raise Violation("%s = %r is out of its range (%s, k=%d, %d samples)" % (name, v, mode, k, p),
                                        index=name, **w)
                    if name == "cSIL" and v < -0.05:
                        tr.tag("csil_negative")
                    if name == "GD53" and v > 0.49:
                        tr.tag("gd53_near_half")
            if "CH" in o and "WB" in o and p > k and (mode, "CH", p) in vals and (mode, "WB", p) in vals:
                a, b = vals[mode, "CH", p], vals[mode, "WB", p]
                want = k * (p - k) / (k - 1)
                tol = want * (2 * o.tol["CH"] / abs(o.val["CH"]) + 2 * o.tol["WB"] / abs(o.val["WB"])) \
                    if o.val["CH"] and o.val["WB"] else np.inf
                if tol < 1e-2 * want:
                    tr.decided += 1
                    tr.tag("identity")
                    if not abs(a * b - want) <= tol:
                        raise Violation("CH*WB = %r, k(N-k)/(k-1) = %r (%s)" % (a * b, want, mode), **w)


def example():
    return common.example_stream()
