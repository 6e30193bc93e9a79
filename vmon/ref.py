"""
Reference model: the definitions of the nine indices, computed from scratch in
extended precision from all samples seen, together with a tolerance derived
from the conditioning of each value (how far it moves when the samples are
perturbed at round-off level).  Independent of the code under test.
"""
import numpy as np

LD = np.longdouble
EPS = 2.0 ** -52
NAMES = ("CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB")


def dense(labels):
    """First-seen dense ids."""
    m = {}
    out = np.empty(len(labels), dtype=int)
    for i, l in enumerate(labels):
        l = int(l)
        out[i] = m.setdefault(l, len(m))
    return out, len(m)


class Stats:
    def __init__(self, X, idx, k, want_cov):
        X = np.asarray(X, dtype=LD)
        N, d = X.shape
        order = np.argsort(idx, kind="stable")
        Xs = X[order]
        ids = np.asarray(idx)[order]
        n = np.bincount(ids, minlength=k)
        assert (n > 0).all()
        starts = np.concatenate([[0], np.cumsum(n)[:-1]])
        V = np.add.reduceat(Xs, starts, axis=0) / n[:, None].astype(LD)
        # one Newton step removes the summation error of the mean
        R = Xs - V[ids]
        V = V + np.add.reduceat(R, starts, axis=0) / n[:, None].astype(LD)
        R = Xs - V[ids]
        self.N, self.d, self.k = N, d, k
        self.n = n.astype(LD)
        self.V = V
        self.CP = np.add.reduceat((R * R).sum(axis=1), starts)
        self.mu = X.mean(axis=0)
        df = V[:, None, :] - V[None, :, :]
        self.D2 = (df * df).sum(axis=2)
        self.cov = None
        if want_cov:
            C = np.zeros((k, d, d))
            for i in range(k):
                if n[i] > 1:
                    r = R[starts[i]:starts[i] + n[i]]
                    C[i] = (r.T @ r / LD(n[i] - 1)).astype(float)
            self.cov = C


def _off(M, k):
    return M[np.triu_indices(k, 1)]


def value(name, s):
    """Definition of index `name` on statistics `s`; nan where undefined."""
    k, n, CP, D2 = s.k, s.n, s.CP, s.D2
    if k < 2:
        return LD(0.0)
    with np.errstate(all="ignore"):
        if name in ("CH", "WB"):
            W = CP.sum()
            dm = s.V - s.mu
            Bt = (n * (dm * dm).sum(axis=1)).sum()
            if name == "CH":
                return Bt / W * LD(s.N - k) / LD(k - 1) if W > 0 else LD(np.nan)
            return LD(k) * W / Bt if Bt > 0 else LD(np.nan)
        if name == "XB":
            m = _off(D2, k).min()
            return CP.sum() / (LD(s.N) * m) if m > 0 else LD(np.nan)
        if name == "DB":
            S = CP / n
            R = (S[:, None] + S[None, :]) / np.where(np.eye(k, dtype=bool), LD(np.inf), D2)
            return R.max(axis=1).sum() / LD(k)
        if name == "GD43":
            intra = 2 * (CP / n).max()
            return np.sqrt(_off(D2, k).min()) / intra if intra > 0 else LD(np.nan)
        if name == "GD53":
            intra = 2 * (CP / n).max()
            P = (CP[:, None] + CP[None, :]) / (n[:, None] + n[None, :])
            return _off(P, k).min() / intra if intra > 0 else LD(np.nan)
        if name == "PS":
            vb = s.V.mean(axis=0)
            beta = ((s.V - vb) ** 2).sum() / LD(k)
            if not beta > 0:
                return LD(np.nan)
            M = np.where(np.eye(k, dtype=bool), LD(np.inf), D2).min(axis=1)
            return (n / n.max() - np.exp(-M / beta)).sum()
        if name == "cSIL":
            # S[j, i]: mean squared distance of cluster j to mean i
            S = (CP / n)[:, None] + D2
            a = np.diag(S)
            b = np.where(np.eye(k, dtype=bool), LD(np.inf), S).min(axis=0)
            m = np.maximum(a, b)
            if not (m > 0).all():
                return LD(np.nan)
            return ((b - a) / m).sum() / LD(k)
    raise KeyError(name)


def rcip(s):
    """(value, tolerance) of rCIP; (nan, inf) where double precision cannot tell."""
    k, d = s.k, s.d
    if k < 2:
        return 0.0, 0.0
    delta = 10.0 ** (-12.0 / d)
    iu, ju = np.triu_indices(k, 1)
    Q = s.cov[iu] + s.cov[ju] + 2 * delta * np.eye(d)
    diff = (s.V[iu] - s.V[ju]).astype(float)
    w = np.linalg.eigvalsh(Q)
    if not np.isfinite(w).all() or (w[:, 0] <= 0).any():
        return np.nan, np.inf
    cond = w[:, -1] / w[:, 0]
    if (cond > 1e9).any():
        return np.nan, np.inf
    L = np.linalg.cholesky(Q)
    z = np.linalg.solve(L, diff[:, :, None])[:, :, 0]
    m = (z * z).sum(axis=1)
    logdet = 2 * np.log(np.diagonal(L, axis1=1, axis2=2)).sum(axis=1)
    if (np.abs(logdet) > 600).any():
        return np.nan, np.inf
    logs = -0.5 * d * np.log(2 * np.pi) - 0.5 * logdet - 0.5 * m
    with np.errstate(all="ignore"):
        vals = np.exp(logs)
        rel = 200 * EPS * cond * (d + m)
    tol = (vals * np.minimum(rel, 1e6)).sum()
    return float(vals.sum()), float(tol)


def denominator(name, s):
    """The squared length the index divides by; noise there is noise everywhere,
    even where the quotient happens to be insensitive (two means: PS is constant)."""
    k = s.k
    if k < 2:
        return np.inf
    if name == "CH":
        return float(s.CP.sum())
    if name == "WB":
        dm = s.V - s.mu
        return float((s.n * (dm * dm).sum(axis=1)).sum())
    if name in ("GD43", "GD53"):
        return float((s.CP / s.n).max())
    if name in ("XB", "DB"):
        return float(_off(s.D2, k).min())
    if name == "PS":
        return float(((s.V - s.V.mean(axis=0)) ** 2).sum() / LD(k))
    if name == "cSIL":
        S = (s.CP / s.n)[:, None] + s.D2
        return float(S.max(axis=0).min())
    return np.inf


class Oracle:
    """name -> (value, tolerance); missing where no verdict is possible."""

    def __init__(self, X, idx, k, names=NAMES, rng=None, growth=1.0):
        X = np.asarray(X, dtype=float)
        N = len(X)
        names = tuple(names)
        want_cov = "rCIP" in names
        self.k, self.N = k, N
        self.val, self.tol = {}, {}
        base = Stats(X, idx, k, want_cov)
        self.stats = base
        rng = rng or np.random.default_rng(N * 1000003 + k)
        # per-feature magnitude, the unit of round-off of coordinates
        L = np.abs(X).max(axis=0)
        eta = growth * (1e-13 + 2e-15 * N)
        pert = [Stats(X + eta * L * rng.uniform(-1, 1, size=X.shape), idx, k, want_cov) for _ in range(2)]
        R2 = float(((X - X[0]) ** 2).sum(axis=1).max())
        noise = X.shape[1] * (100 * eta * float(L.max())) ** 2
        for name in names:
            if name == "rCIP":
                v, t = rcip(base)
                devs = []
                for p in pert:
                    devs.append(abs(rcip(p)[0] - v))
                dev = max(devs)
                tol = t + 40 * dev + 1e-9 * abs(v) + 1e-290
                floor = 1e-250
            else:
                v = float(value(name, base))
                dev = max(abs(float(value(name, p)) - v) for p in pert)
                tol = 40 * dev + 1e-9 * abs(v) + 1e-300
                floor = 1.0 if name in ("cSIL", "PS") else 0.0
                if name == "cSIL" and k > 1:
                    S = base.CP / base.n
                    off = np.where(np.eye(k, dtype=bool), LD(np.inf), base.D2 + S[:, None]).min(axis=0)
                    m = float(np.maximum(S, off).min())
                    # raw moments about the first sample
                    tol += 256 * EPS * (R2 / m if m > 0 else np.inf) * (1 + N / 256.0)
                if name == "PS":
                    tol += 1e-12 * k
            if not (np.isfinite(v) and np.isfinite(tol)):
                continue
            if denominator(name, base) <= noise:
                continue
            if v == 0.0 and dev == 0.0 and name != "rCIP":
                # exactly zero by structure (e.g. one-sample clusters)
                self.val[name], self.tol[name] = v, max(tol, 1e-12)
                continue
            if tol > 1e-3 * max(abs(v), floor) and not (name == "rCIP" and abs(v) < 1e-250):
                continue
            self.val[name], self.tol[name] = v, tol

    def __contains__(self, name):
        return name in self.val


def agree(a, b, tol):
    """Both finite and within tol."""
    return np.isfinite(a) and np.isfinite(b) and abs(a - b) <= tol
