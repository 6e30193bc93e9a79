"""The values of the legacy Davies-Bouldin and generalised Dunn indices."""
import numpy as np

from .. import gen, ref
from ..target import Violation, cvi
from . import common

CASES = {"quick": 6000, "thorough": 60000}
CHUNK = 6
RULE = ("A case is one stream with labels introduced as 0, 1, 2, ...: legacy iDB, iGD43 and iGD53 consume it and every returned "
        "value is compared with an interval replay of the stated recurrences (centres recomputed as means, compactness and its "
        "rounding bound carried along). A third of the cases replay the stream with its features permuted. Distinct by SHA-1 "
        "of the stream.")
ASSUMPTIONS = ["coinciding centres, all-zero diameters and values whose rounding interval is wider than 1% give no verdict"]
NAMES = ("iDB", "iGD43", "iGD53")
REQUIRED = dict([("value_" + n, 3000) for n in NAMES] + [("opening_" + n, 800) for n in NAMES] +
                [("permuted_" + n, 500) for n in NAMES] + [("far_" + n, 200) for n in NAMES])
EPS = float(np.finfo(float).eps)


class Replay:
    """lower and upper bounds of what the three legacy indices return"""

    def __init__(self, d):
        self.d = d
        self.S = np.zeros((0, d))         # sums of the samples
        self.n = np.zeros(0)
        self.cp = {1: np.zeros((0, 2)), 2: np.zeros((0, 2))}
        self.known = np.zeros((0, 0), bool)
        self.R = np.zeros((0, 2))
        self.steps = 0
        self.L = 0.0

    def open(self, x):
        self.L = max(self.L, float(np.abs(x).max()))
        k = len(self.n) + 1
        self.S = np.vstack([self.S, x])
        self.n = np.append(self.n, 1.0)
        for q in self.cp:
            self.cp[q] = np.vstack([self.cp[q], [0.0, 0.0]])
        K = np.zeros((k, k), bool)
        K[:k - 1, :k - 1] = self.known
        self.known = K
        self.R = np.vstack([self.R, [0.0, 0.0]])

    def add(self, x, c):
        self.L = max(self.L, float(np.abs(x).max()))
        self.steps += 1
        n = self.n[c]
        v = self.S[c] / n
        unit = 8 * EPS * self.L * self.d * (n + 4)             # error of a centre or of a distance to it
        noise = 16 * EPS * self.L * self.d * self.steps * (n + 4)      # bound of what rounding leaves in the residual
        for q in (1, 2):
            dist = float(np.linalg.norm(x - v, q))
            new = 2 * n / (n + 1) * dist
            self.cp[q][c, 0] += new - 4 * unit
            self.cp[q][c, 1] += new + 4 * unit + np.sqrt(2 * (dist + unit) * noise)
        self.S[c] = self.S[c] + x
        self.n[c] = n + 1
        self.known[c, :] = self.known[:, c] = True
        self.known[c, c] = False

        # Davies-Bouldin: only the term of the cluster that received the sample is refreshed
        V = self.S / self.n[:, None]
        err = 8 * EPS * self.L * self.d * (float(self.n.max()) + 4)
        k = len(self.n)
        if k > 1:
            M = np.abs(V - V[c]).sum(axis=1)
            others = np.arange(k) != c
            s = self.cp[1] / self.n[:, None]
            with np.errstate(all="ignore"):
                lo = (s[c, 0] + s[:, 0]) / (M + err)
                hi = (s[c, 1] + s[:, 1]) / (M - err)
                bad = (M <= 4 * err)[others].any()
            self.R[c] = (np.nan, np.nan) if bad else (lo[others].max(), hi[others].max())
        self.V, self.err = V, err

    def bounds(self, name):
        k = len(self.n)
        if name == "iDB":
            return tuple(self.R.sum(axis=0) / k)
        fed = self.n > 1
        cp = self.cp[2]
        D = 2 * cp / self.n[:, None]
        D = D[fed].max(axis=0)
        i, j = np.nonzero(np.triu(self.known))
        if not len(i):
            return np.nan, np.nan
        if name == "iGD43":
            s = np.linalg.norm(self.V[i] - self.V[j], axis=1)
            lo, hi = (np.maximum(s - self.err, 0) ** 2).min(), ((s + self.err) ** 2).min()
        else:
            r = (cp[i] + cp[j]) / (self.n[i] + self.n[j])[:, None]
            lo, hi = r.min(axis=0)
        if D[0] <= 0:
            return np.nan, np.nan
        return lo / D[1], hi / D[0]


def play(ctx, X, idx, tag):
    tr = ctx.tr
    objs = {n: cvi.compat.iCVI(n) for n in NAMES}
    last = {n: 0.0 for n in NAMES}
    R = Replay(X.shape[1])
    for i in range(len(idx)):
        c = int(idx[i])
        fresh = c == len(R.n)
        if fresh:
            R.open(X[i])
        else:
            R.add(X[i], c)
        for name, obj in objs.items():
            tr.events += 1
            try:
                v = obj.update(X[i].copy(), c)
            except Exception as e:  # noqa: BLE001
                raise Violation("legacy %s.update raised %r at sample %d" % (name, e, i + 1), index=name,
                                **common.witness(X, idx, i + 1))
            v = float(v)
            if fresh:
                tr.decided += 1
                tr.tag("opening_" + name)
                if not (v == last[name] or (np.isnan(v) and np.isnan(last[name]))):
                    raise Violation("legacy %s returned %r for the sample that opens cluster %d, previous value %r"
                                    % (name, v, c, last[name]), index=name, **common.witness(X, idx, i + 1))
            elif len(R.n) > 1:
                with np.errstate(all="ignore"):
                    lo, hi = R.bounds(name)
                if np.isfinite(lo) and np.isfinite(hi) and 0 < hi and hi - lo <= 1e-2 * hi:
                    tr.decided += 1
                    tr.tag(tag + "_" + name)
                    if R.err > 1e-14 * float(np.ptp(X)):
                        tr.tag("far_" + name)
                    if not (lo * (1 - 1e-10) <= v <= hi * (1 + 1e-10)):
                        raise Violation("legacy %s returned %r at sample %d, the recurrence gives %r to %r"
                                        % (name, v, i + 1, lo, hi), index=name, **common.witness(X, idx, i + 1))
                else:
                    tr.tag("undecided_" + name)
            last[name] = v


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    X, labels, meta = gen.stream(rng, size=gen.rare(case, 83) or str(rng.choice(["tiny", "small", "medium", "wide", "many"],
                                                                                 p=[.25, .52, .17, .03, .03])))
    idx, k = ref.dense(labels)
    n = max(2, int((np.cumsum((np.maximum.accumulate(idx) + 1.0) ** 2) < 1.2e6).sum()))
    X, idx = X[:n], idx[:n]
    meta["kind"] = "legacy values"
    ctx.meta = meta
    ctx.sign(X, idx)
    play(ctx, X, idx, "value")
    if case % 3 == 0 and X.shape[1] > 1:
        play(ctx, np.ascontiguousarray(X[:, rng.permutation(X.shape[1])]), idx, "permuted")


def example():
    return common.example_stream()
