"""
A cheap online model of the nine definitions in double precision (Welford
updates about the first sample), advanced beside the real object so that every
single step of a stream is watched.  It gives no verdicts: a step on which the
observed value differs from the shadow is handed to the extended-precision
oracle, which decides.
"""
import numpy as np

from .ref import NAMES

GROW = 8


class Shadow:
    def __init__(self, names=NAMES):
        self.names = tuple(names)
        self.k = 0
        self.N = 0
        self.origin = None
        self.ids = {}

    def _alloc(self, cap):
        d = self.d
        old = self.k
        n, v, cp, D2 = np.zeros(cap), np.zeros((cap, d)), np.zeros(cap), np.zeros((cap, cap))
        if old:
            n[:old], v[:old], cp[:old], D2[:old, :old] = self.n[:old], self.v[:old], self.cp[:old], self.D2[:old, :old]
        self.n, self.v, self.cp, self.D2 = n, v, cp, D2
        if "rCIP" in self.names:
            M, pair = np.zeros((cap, d, d)), np.zeros((cap, cap))
            if old:
                M[:old], pair[:old, :old] = self.M[:old], self.pair[:old, :old]
            self.M, self.pair = M, pair
        self.cap = cap

    def step(self, x, label):
        x = np.asarray(x, dtype=float)
        if self.origin is None:
            self.origin = x.copy()
            self.d = len(x)
            self.mu = np.zeros(self.d)
            self.delta = 10.0 ** (-12.0 / self.d)
            self.cap = 0
            self._alloc(GROW)
        x = x - self.origin
        label = int(label)
        i = self.ids.get(label)
        if i is None:
            i = self.ids[label] = self.k
            if self.k == self.cap:
                self._alloc(2 * self.cap)
            self.k += 1
        self.N += 1
        self.mu = self.mu + (x - self.mu) / self.N
        self.n[i] += 1
        e = x - self.v[i]
        self.v[i] += e / self.n[i]
        f = x - self.v[i]
        self.cp[i] += e @ f
        k = self.k
        diff = self.v[:k] - self.v[i]
        row = (diff * diff).sum(axis=1)
        self.D2[i, :k] = row
        self.D2[:k, i] = row
        if "rCIP" in self.names:
            self.M[i] += np.outer(e, f)
            if k > 1:
                self._pairs(i, diff)

    def _pairs(self, i, diff):
        k, d = self.k, self.d
        C = self.M[:k] / np.maximum(self.n[:k] - 1, 1)[:, None, None]
        Q = C + C[i] + 2 * self.delta * np.eye(d)
        try:
            with np.errstate(all="ignore"):
                L = np.linalg.cholesky(Q)
                z = np.linalg.solve(L, diff[:, :, None])[:, :, 0]
                val = np.exp(-0.5 * d * np.log(2 * np.pi) - np.log(np.diagonal(L, axis1=1, axis2=2)).sum(axis=1)
                             - 0.5 * (z * z).sum(axis=1))
        except np.linalg.LinAlgError:
            val = np.full(k, np.nan)
        val[i] = 0.0
        self.pair[i, :k] = val
        self.pair[:k, i] = val

    def value(self, name):
        k = self.k
        if k < 2:
            return 0.0
        n, v, cp, D2 = self.n[:k], self.v[:k], self.cp[:k], self.D2[:k, :k]
        with np.errstate(all="ignore"):
            if name == "rCIP":
                return 0.5 * self.pair[:k, :k].sum()
            if name in ("CH", "WB"):
                W = cp.sum()
                dm = v - self.mu
                B = n @ (dm * dm).sum(axis=1)
                return B / W * (self.N - k) / (k - 1) if name == "CH" else k * W / B
            inf = D2 + np.diag(np.full(k, np.inf))
            S = cp / n
            if name == "XB":
                return cp.sum() / (self.N * inf.min())
            if name == "DB":
                return ((S[:, None] + S) / inf).max(axis=1).sum() / k
            if name == "GD43":
                return np.sqrt(inf.min()) / (2 * S.max())
            if name == "GD53":
                P = (cp[:, None] + cp) / (n[:, None] + n) + np.diag(np.full(k, np.inf))
                return P.min() / (2 * S.max())
            if name == "PS":
                c = v - v.mean(axis=0)
                beta = (c * c).sum() / k
                return (n / n.max() - np.exp(-inf.min(axis=1) / beta)).sum()
            if name == "cSIL":
                b = (S[:, None] + inf).min(axis=0)
                return ((b - S) / np.maximum(S, b)).sum() / k
        raise KeyError(name)


FLOOR = {"cSIL": 1.0, "PS": 1.0}


def differs(a, b, name, rel=3e-9):
    """Worth the oracle's attention?"""
    if a == b:
        return False
    if not (np.isfinite(a) and np.isfinite(b)):
        return not (a != a and b != b)
    return abs(a - b) > rel * max(abs(a), abs(b), FLOOR.get(name, 0.0)) + 1e-280


class Watch:
    """Which steps get a verdict: the planned ones, and (up to a budget per
    object) those on which the observed value departs from a second opinion."""

    def __init__(self, planned, budget=25):
        self.planned = frozenset(planned)
        self.budget = budget
        self.seen = {}

    def wants(self, tr, key, p, got, second, name):
        if p in self.planned:
            return True
        tr.tag("watched_steps")
        if not differs(got, second, name):
            return False
        tr.tag("suspect_steps")
        c = self.seen[key] = self.seen.get(key, 0) + 1
        return c <= self.budget or c & (c - 1) == 0
