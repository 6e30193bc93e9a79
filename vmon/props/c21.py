"""The legacy compat module."""
import numpy as np

from .. import gen, ref
from ..target import Violation, cvi
from . import common

CASES = {"quick": 1500, "thorough": 8000}
CHUNK = 6
RULE = ("A case is one stream with labels introduced as 0, 1, 2, ...: legacy objects of all seven names consume it (CH, XB "
        "and PS compared with the definition after every sample), a skipping label is injected at a random point, Cluster "
        "objects and the update helpers replay it against recomputed means, distances, boxes and compactness. Distinct by "
        "SHA-1 of the stream.")
ASSUMPTIONS = ["iDB, iGD43 and iGD53 are only required to accept streams here: C24 decides their values",
               "undefined or ill-conditioned prefixes give no verdict"]
FACTORY = ("iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB")
VALUED = {"iCH": "CH", "iXB": "XB", "iPS": "PS"}
REQUIRED = dict([("value_" + n, 1000) for n in VALUED] + [("accepted_" + n, 3000) for n in FACTORY if n != "iSIL"] +
                [("skip_" + n, 100) for n in FACTORY if n != "iPS"] +
                [("cluster", 500), ("helpers", 500), ("factory", 500), ("box", 200)])


def close(a, b, scale=1.0, rel=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.isfinite(a).all() and (np.abs(a - b) <= rel * scale).all()


def legacy_update(ctx, obj, name, x, c):
    ctx.tr.events += 1
    try:
        return obj.update(x, c)
    except ValueError as e:
        if name == "iSIL" and "empty" in str(e):
            ctx.known.append("iSIL-update-empty")
            return None
        raise Violation("legacy %s.update raised ValueError: %s on label %d" % (name, e, c), index=name)
    except Exception as e:  # noqa: BLE001
        raise Violation("legacy %s.update raised %s: %s on label %d" % (name, type(e).__name__, e, c), index=name)


def factory(ctx):
    rng, tr = ctx.rng, ctx.tr
    for n in FACTORY:
        a, b = cvi.compat.iCVI(n), cvi.compat.iCVI(n)
        tr.decided += 1
        tr.tag("factory")
        if type(a) is not getattr(cvi.compat, n) or a is b:
            raise Violation("iCVI(%r) returned %r" % (n, a), index=n)
    letters = list("iDBSILGCHPX4353 ")
    words = ["", "XB", "ixb", "iXB ", "iGD", "iGD44", "icvi", None, 43, "iGD33", "iWB", "iCSIL"]
    words += ["".join(rng.choice(letters, int(rng.integers(1, 7)))) for _ in range(6)]
    for w in words:
        if w in FACTORY:
            continue
        tr.decided += 1
        try:
            o = cvi.compat.iCVI(w)
        except ValueError:
            continue
        except Exception as e:  # noqa: BLE001
            raise Violation("iCVI(%r) raised %r, not ValueError" % (w, e))
        raise Violation("iCVI(%r) returned %r" % (w, o))


def indices(ctx, X, idx, k):
    rng, tr = ctx.rng, ctx.tr
    N = len(idx)
    P = common.Prefixes(X, [int(i) for i in idx], ("CH", "XB", "PS"))
    pts = set(gen.checkpoints(rng, list(idx), 14))
    watch = common.Watch(pts, 12)
    shadow = common.shadow_values(X, idx, ("CH", "XB", "PS"))
    f2 = common.first_two(list(idx)) or N + 1
    skip_at = int(rng.integers(0, N))
    for name in FACTORY:
        obj = cvi.compat.iCVI(name)
        for i in range(N):
            if i == (0 if name == "iSIL" else skip_at) and name != "iPS":
                seen = int(idx[:i].max()) + 1 if i else 0
                tr.decided += 1
                tr.tag("skip_" + name)
                try:
                    obj.update(X[i].copy(), seen + int(rng.choice([1, 1, 2, 3, 17, 1000])))
                except ValueError:
                    pass
                except Exception as e:  # noqa: BLE001
                    raise Violation("legacy %s raised %r, not ValueError, for a label that skips ahead" % (name, e), index=name)
                else:
                    raise Violation("legacy %s accepted a label that skips ahead" % name, index=name)
                break
            legacy_update(ctx, obj, name, X[i].copy(), int(idx[i]))
    for name in FACTORY:
        obj = cvi.compat.iCVI(name)
        for i in range(N):
            v = legacy_update(ctx, obj, name, X[i].copy(), int(idx[i]))
            if v is None:
                break
            tr.tag("accepted_" + name)
            m = VALUED.get(name)
            if m and i + 1 >= f2 and watch.wants(tr, name, i + 1, v, shadow[m][i], m):
                o = P.at(i + 1)
                kk = int(idx[:i + 1].max()) + 1
                if name == "iCH" and i + 1 == kk:
                    continue
                common.expect(tr, v, o, m, "legacy %s, sample %d" % (name, i + 1), **common.witness(X, idx, i + 1))
                if m in o:
                    tr.tag("value_" + name)


def cluster(ctx, X):
    rng, tr = ctx.rng, ctx.tr
    v0 = cvi.compat.v0
    unit = X.min() >= 0 and X.max() <= 1
    c = v0.Cluster() if rng.random() < 0.7 else v0.Cluster(radial=True, box=bool(unit))
    indexed = bool(rng.random() < 0.5)
    L = float(np.abs(X).max()) + 1e-30
    for i in range(min(len(X), 400 if ctx.case % 7 == 0 else 25)):
        c.add_point(X[i].copy(), *((i,) if indexed else ()))
        if i >= 25 and rng.random() > 0.03 and i + 1 < len(X):
            continue
        A = X[:i + 1]
        q = X[int(rng.integers(len(X)))] + (rng.normal(size=X.shape[1]) * L if rng.random() < 0.7 else 0.0)
        for o in (None, 2, 1, np.inf):
            kw = {} if o is None else {"norm_ord": o}
            D = np.array([np.linalg.norm(q - a, 2 if o is None else o) for a in A])
            s = (np.abs(q).max() + L) * X.shape[1]
            tr.decided += 3
            for what, got, want in (("min_distance", c.min_distance(q, **kw), D.min()),
                                    ("avg_distance", c.avg_distance(q, **kw), D.mean()),
                                    ("center_distance", c.center_distance(q, **kw),
                                     np.linalg.norm(A.mean(axis=0) - q, 2 if o is None else o))):
                if not close(got, want, s, 1e-10):
                    raise Violation("Cluster.%s(norm %s) is %r, true value %r" % (what, o, got, want), points=A, query=q)
        if not close(c.center, A.mean(axis=0), L, 1e-10) or c.len != i + 1 or c.dim != X.shape[1] or len(c.points) != i + 1:
            raise Violation("Cluster centre, length or dimension wrong after %d points" % (i + 1), points=A)
        if not all(np.array_equal(p, a) for p, a in zip(c.points, A)):
            raise Violation("Cluster does not hold its points", points=A)
        tr.tag("cluster")


def collection(ctx, X, idx):
    tr = ctx.tr
    cs = cvi.compat.v0.Clusters()
    try:
        cs.from_list([x.copy() for x in X], [int(c) for c in idx])
    except Exception as e:  # noqa: BLE001
        raise Violation("Clusters.from_list raised %r" % (e,), labels=list(idx))
    tr.decided += 1
    tr.tag("from_list")
    L = float(np.abs(X).max()) + 1e-30
    if len(cs) != int(idx.max()) + 1:
        raise Violation("Clusters.from_list made %d clusters of %d" % (len(cs), int(idx.max()) + 1), labels=list(idx))
    for c in range(len(cs)):
        A = X[idx == c]
        if cs[c].len != len(A) or not close(cs[c].center, A.mean(axis=0), L, 1e-10):
            raise Violation("cluster %d of Clusters.from_list is wrong" % c, labels=list(idx))


def box(ctx, N, d):
    rng, tr = ctx.rng, ctx.tr
    v0 = cvi.compat.v0
    B = v0.Cluster(radial=False, box=True)
    U = rng.uniform(0, 1, size=(min(N, 12) if rng.random() < 0.8 else 90, d))
    if rng.random() < 0.5:        # borders, repeats and exact values
        U = np.round(U * int(rng.integers(1, 5))) / 4.0
        U = np.minimum(U, 1.0)
    for i in range(len(U)):
        B.add_point(U[i].copy())
        lo, hi = U[:i + 1].min(axis=0), U[:i + 1].max(axis=0)
        tr.decided += 1
        tr.tag("box")
        if not close(B.bounding_box, np.concatenate([lo, 1 - hi]), 1.0, 1e-12):
            raise Violation("Cluster bounding box wrong after %d points" % (i + 1), points=U[:i + 1])
        q = U[int(rng.integers(0, i + 1))]
        if not B.within_bounding_box(np.append(q, 1 - q)):
            raise Violation("a point of the cluster is not within its bounding box", points=U[:i + 1], query=q)
        q = rng.uniform(0, 1, size=d) if rng.random() < 0.5 else lo + (hi - lo) * rng.uniform(0, 1, size=d)
        margin = np.minimum(np.abs(q - lo), np.abs(q - hi)).min()
        if margin > 1e-9:
            want = bool(((q >= lo) & (q <= hi)).all())
            if bool(B.within_bounding_box(np.append(q, 1 - q))) != want:
                raise Violation("within_bounding_box is not %r" % want, points=U[:i + 1], query=q)


def helpers(ctx, X):
    rng, tr = ctx.rng, ctx.tr
    v0 = cvi.compat.v0
    L = float(np.abs(X).max()) + 1e-30
    d = X.shape[1]
    v, n = X[0].copy(), 1
    cp, g, v2, n2 = 0.0, None, X[0].copy(), 1
    for i in range(1, min(len(X), 400 if ctx.case % 7 == 3 else 25)):
        x = X[i].copy()
        v, n = v0.cluster_center_update(x, v, n)
        kw = {}                   # the new size and centre may be given by the caller
        if rng.random() < 0.2:
            kw["n_new"] = n2 + 1
        if rng.random() < 0.2:
            kw["v_new"] = X[:i + 1].mean(axis=0)
        r = v0.CP_update(x, v2, n2, g, cp, **kw)
        if not (isinstance(r, tuple) and len(r) == 4):
            raise Violation("CP_update returned %r" % (r,))
        cp, g_, v2, n2 = r
        g = g_ if rng.random() < 0.7 else None
        A = X[:i + 1]
        m = A.mean(axis=0)
        true = float(((A - m) ** 2).sum())
        tr.decided += 3
        tr.tag("helpers")
        if not close(v, m, L, 1e-10) or n != i + 1 or not np.array_equal(x, X[i]):
            raise Violation("cluster_center_update gives %r, %r after %d points, true mean %r" % (v, n, i + 1, m), points=A)
        if not close(v2, m, L, 1e-10) or n2 != i + 1:
            raise Violation("CP_update gives centre %r and size %r after %d points" % (v2, n2, i + 1), points=A)
        if not close(cp, true, true + 1e-6 * L * L * d * (i + 1), 1e-8):
            raise Violation("CP_update gives compactness %r after %d points, true value %r" % (cp, i + 1, true), points=A)
        if not close(v0.norm22(x), float((x * x).sum()), float((x * x).sum()) + 1e-300, 1e-10):
            raise Violation("norm22(%r) is %r" % (x, v0.norm22(x)))


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    X, labels, meta = gen.stream(rng, size=gen.rare(case, 83) or str(rng.choice(["tiny", "small", "medium", "wide", "many"], p=[.3, .47, .17, .03, .03])))
    idx, k = ref.dense(labels)
    # the legacy updates cost the square of the clusters so far: keep the prefix that can be afforded
    n = max(2, int((np.cumsum((np.maximum.accumulate(idx) + 1.0) ** 2) < 1.2e6).sum()))
    if n < len(idx):
        X, idx = X[:n], idx[:n]
        k = int(idx.max()) + 1
    meta["kind"] = "legacy"
    ctx.meta = meta
    ctx.sign(X, idx)
    if case % 4 == 0:
        factory(ctx)
    indices(ctx, X, idx, k)
    cluster(ctx, X)
    if len(X) < 400:
        collection(ctx, X, idx)
    helpers(ctx, X)
    if case % 2:
        box(ctx, len(X), X.shape[1])


def example():
    return common.example_stream()
