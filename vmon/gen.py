"""
Workload generators: hostile labelled streams.

Every stream is a pair (X, labels): float64 samples [N, d] and a list of Python
int labels, plus a dictionary that says how it was made.
"""
import numpy as np

# ------------------------------------------------------------------ labels


def label_sequence(rng, N, k, pattern):
    """Cluster ids (first seen in any order) of length N using k clusters (k <= N)."""
    if pattern == "roundrobin":
        return [i % k for i in range(N)]
    if pattern == "blocked":
        sizes = rng.multinomial(N - k, np.ones(k) / k) + 1
        out = []
        for c in rng.permutation(k):
            out += [int(c)] * int(sizes[c])
        return out
    if pattern == "random":
        out = list(rng.permutation(k)) + list(rng.integers(0, k, N - k))
        rng.shuffle(out)
        return [int(c) for c in out]
    if pattern == "upfront":       # every cluster opens at once, then random
        return [int(c) for c in rng.permutation(k)] + [int(c) for c in rng.integers(0, k, N - k)]
    if pattern == "late":          # the last cluster opens with the last sample
        out = label_sequence(rng, N - 1, k - 1, "random") if k > 1 else [0] * (N - 1)
        return out + [k - 1]
    if pattern == "lonely":        # one big cluster, the rest one sample each
        out = [0] * (N - k + 1) + list(range(1, k))
        rng.shuffle(out)
        return [int(c) for c in out]
    if pattern == "bursts":        # runs of random length, clusters revisited
        out = []
        opened = 0
        while len(out) < N - (k - opened):
            if opened < k and (opened == 0 or rng.random() < 0.3):
                c = opened
                opened += 1
            else:
                c = int(rng.integers(0, opened))
            out += [c] * int(min(rng.integers(1, 6), max(1, N - (k - opened) - len(out))))
        out += list(range(opened, k))
        return out[:N] if len(set(out[:N])) == k else label_sequence(rng, N, k, "random")
    if pattern == "return":        # first cluster opens, goes quiet, returns at the end
        if N < k + 2 or k < 2:
            return label_sequence(rng, N, k, "random")
        mid = label_sequence(rng, N - 2, k - 1, "random")
        return [0] + [c + 1 for c in mid] + [0]
    if pattern == "skewed":        # geometric cluster sizes
        p = 0.5 ** np.arange(k)
        p /= p.sum()
        out = list(range(k)) + list(rng.choice(k, N - k, p=p))
        rng.shuffle(out)
        return [int(c) for c in out]
    if pattern == "gap":           # phases in which only some of the clusters are active
        cuts = np.sort(rng.choice(np.arange(1, max(2, N)), min(int(rng.integers(1, 5)), max(1, N - 1)), replace=False))
        bounds = [0] + [int(c) for c in cuts] + [N]
        out = []
        for a, b in zip(bounds, bounds[1:]):
            act = rng.choice(k, int(rng.integers(1, k + 1)), replace=False)
            out += [int(c) for c in rng.choice(act, b - a)]
        missing = [c for c in range(k) if c not in set(out)]
        for c in missing:              # late clusters, early ones, anywhere
            out.insert(int(rng.integers(0, len(out) + 1)), c)
        out = out[:N] if len(set(out[:N])) == k else label_sequence(rng, N, k, "random")
        return out
    if pattern == "giants":        # a few clusters dwarf the others
        big = min(k, int(rng.integers(2, 4)))
        rest = [c for c in range(big, k)] * int(rng.choice([1, 1, 2]))
        if len(rest) + big > N:
            return label_sequence(rng, N, k, "skewed")
        out = rest + list(range(big)) + [int(c) for c in rng.integers(0, big, N - len(rest) - big)]
        rng.shuffle(out)
        names = rng.permutation(k)
        return [int(names[c]) for c in out]
    if pattern == "away":          # one cluster opens, stays away for most of the stream and returns for good
        if N < k + 12 or k < 2:
            return label_sequence(rng, N, k, "return")
        a, b = int(rng.integers(1, 5)), int(rng.integers(1, 6))
        mid = label_sequence(rng, N - a - b, k - 1, "random")
        return [0] * a + [c + 1 for c in mid] + [0] * b
    raise KeyError(pattern)


PATTERNS = ("roundrobin", "blocked", "random", "upfront", "late", "lonely", "bursts", "return", "skewed", "gap",
            "giants")

# ---------------------------------------------------------------- geometry


def points(rng, ids, k, d, geometry):
    N = len(ids)
    ids = np.asarray(ids)
    if geometry == "blobs":
        C = rng.normal(size=(k, d)) * rng.choice([0.5, 3.0, 10.0])
        return C[ids] + rng.normal(size=(N, d)) * rng.uniform(0.2, 2.0, size=(k, 1))[ids]
    if geometry == "overlap":
        return rng.normal(size=(N, d))
    if geometry == "correlated":
        C = rng.normal(size=(k, d)) * 2.0
        A = rng.normal(size=(k, d, d))
        z = rng.normal(size=(N, d))
        return C[ids] + np.einsum("nij,nj->ni", A[ids], z)
    if geometry == "grid":         # small integers: ties and exact arithmetic
        return rng.integers(-4, 5, size=(N, d)).astype(float) + 3.0 * (ids[:, None] % 3)
    if geometry == "positive":
        C = rng.uniform(0, 10, size=(k, d))
        return np.abs(C[ids] + rng.normal(size=(N, d)))
    if geometry == "heavy":
        C = rng.normal(size=(k, d)) * 4.0
        return C[ids] + rng.standard_t(2, size=(N, d))
    if geometry == "nested":       # concentric clusters of different radius
        r = 1.0 + np.arange(k)
        return rng.normal(size=(N, d)) * r[ids][:, None] + 0.3 * rng.normal(size=(k, d))[ids]
    if geometry == "sparse":       # many exact zeros
        X = rng.normal(size=(N, d)) + (ids[:, None] % 4)
        X[rng.random(size=(N, d)) < 0.4] = 0.0
        return X
    if geometry == "unitbox":
        C = rng.uniform(0, 1, size=(k, d))
        return np.clip(C[ids] + 0.1 * rng.normal(size=(N, d)), 0, 1)
    if geometry == "tight":        # well separated, compact
        C = rng.normal(size=(k, d))
        C *= 20.0
        return C[ids] + rng.uniform(-1, 1, size=(N, d))
    if geometry == "line":         # clusters along one axis, in or out of order
        t = rng.permutation(k)[ids] * 3.0
        X = rng.normal(size=(N, d)) * 0.5
        X[:, 0] += t
        return X
    if geometry == "aniso":        # features of very different extent
        C = rng.normal(size=(k, d)) * 3.0
        w = 10.0 ** rng.uniform(-float(rng.choice([1.0, 2.0, 4.0])), 1.0, size=d)
        if k > 1 and rng.random() < 0.5:       # two clusters that only the narrowest feature tells apart
            i, j = (int(c) for c in rng.choice(k, 2, replace=False))
            a = int(np.argmin(w))
            C[i] = C[j]
            C[i, a] += 4.0
            return (C[ids] + rng.normal(size=(N, d)) * np.where(np.arange(d) == a, 1.0, 0.01)) * w
        return (C[ids] + rng.normal(size=(N, d))) * w
    if geometry == "moving":       # clusters travel, pass and leave each other
        C = rng.normal(size=(k, d)) * 3.0
        V = rng.normal(size=(k, d)) * float(rng.choice([1.0, 4.0, 15.0]))
        t = np.arange(N)[:, None] / max(1.0, N - 1.0)
        return C[ids] + V[ids] * t + rng.normal(size=(N, d)) * float(rng.choice([0.1, 0.6]))
    if geometry == "mirror":       # exact arithmetic: samples in mirrored pairs, then at the centre itself
        C = rng.integers(-8, 9, size=(k, d)) * float(rng.choice([0.0, 1.0, 4.0]))
        C[:, 0] += 16.0 * rng.permutation(k)
        X = np.empty((N, d))
        turn, step = [0] * k, np.zeros((k, d))
        for i, c in enumerate(ids):
            t = turn[c] % 3
            if t == 0:
                step[c] = rng.integers(-3, 4, size=d)
            X[i] = C[c] + (step[c] if t == 0 else -step[c] if t == 1 else 0.0)
            turn[c] += 1
        return X
    raise KeyError(geometry)


GEOMETRIES = ("blobs", "overlap", "correlated", "grid", "positive", "heavy", "nested", "sparse", "unitbox",
              "tight", "line", "aniso", "moving", "mirror")


def approach(rng, X, ids, how):
    """Make a pair chosen by size the closest of all, or the farthest, and perhaps the most compact."""
    ids = np.asarray(ids)
    X = X.copy()
    order = np.argsort(np.bincount(ids), kind="stable")
    if len(order) < 3:
        return X
    i, j = {"giants": (order[-1], order[-2]), "dwarfs": (order[0], order[1]), "mixed": (order[0], order[-1]),
            "ends": (0, len(order) - 1)}[how]
    if rng.random() < 0.5:     # ... and the most compact one, or the widest
        f = float(rng.choice([0.1, 0.1, 0.3, 4.0]))
        for c in (i, j):
            m = X[ids == c].mean(axis=0)
            X[ids == c] = m + f * (X[ids == c] - m)
    M = np.array([X[ids == c].mean(axis=0) for c in range(len(order))])
    D = np.linalg.norm(M[:, None] - M[None], axis=2)
    low = D[~np.eye(len(order), dtype=bool)].min()
    way = M[j] - M[i]
    n = np.linalg.norm(way)
    if n > 0 and low > 0:
        goal = float(rng.choice([0.3, 0.6, 0.9])) * low if rng.random() < 0.8 else 1.7 * D.max()
        X[ids == j] += way * (goal / n - 1.0)
    return X


def spice(rng, X, ids, stuck=False):
    """Plant special samples: zeros, repeats, running means, outliers, negations."""
    X = X.copy()
    N, d = X.shape
    ids = np.asarray(ids)
    if stuck or N > 200 and rng.random() < 0.4:        # a long run of one value in one cluster, then it moves on
        own = np.flatnonzero(ids == ids[int(rng.integers(0, N))])
        if stuck:
            own = np.flatnonzero(ids == np.bincount(ids).argmax())
        own = own[int(rng.integers(0, 3)):]
        own = own[:int(len(own) * rng.uniform(0.4, 0.95))]
        if len(own):
            X[own] = X[own[0]]
    for _ in range(int(rng.integers(1, 5))):
        i = int(rng.integers(0, N))
        what = rng.integers(0, 8)
        if what == 0:
            X[i] = 0.0
        elif what == 1 and i:
            X[i] = X[i - 1]
        elif what == 2:
            same = np.flatnonzero(ids[:i] == ids[i])
            if len(same):
                X[i] = X[same].mean(axis=0)
        elif what == 3:
            X[i] = X[int(rng.integers(0, N))]
        elif what == 4:
            X[i] = X[i] * 30.0
        elif what == 5 and i:
            X[i] = -X[i - 1]
        elif what == 6:
            X[i, int(rng.integers(0, d))] = 0.0
        elif what == 7:
            X[i] = np.round(X[i])
    return X


# ------------------------------------------------------------------ streams

SIZES = {
    # name: (N low, N high, k choices, d choices)
    "tiny": (2, 12, (2, 2, 3, 4), (1, 2, 3)),
    "small": (8, 40, (2, 3, 4, 6), (1, 2, 3, 5)),
    "medium": (40, 140, (2, 3, 5, 8, 13), (1, 2, 3, 4, 7, 10)),
    "large": (250, 700, (2, 3, 6, 10, 20), (1, 2, 3, 6)),
    "wide": (30, 90, (2, 3, 5), (12, 17, 24, 40)),
    "many": (120, 260, (24, 36, 50, 70), (1, 2, 4)),
    "huge": (1100, 2300, (3, 5, 12), (1, 2, 4)),
    "crowd": (280, 420, (105, 135, 205, 262), (1, 2, 3)),
    "deep": (20, 80, (2, 3, 4), (65, 130, 260)),
    "mono": (1040, 1500, (2, 3, 4), (1, 2, 3)),
    "massive": (4200, 11000, (2, 3, 5, 9), (1, 2, 3)),
    "quiet": (700, 1500, (2, 3, 4), (1, 2, 3)),
    "stuck": (320, 700, (2, 3, 4), (1, 2, 3)),
}
RARE = ("huge", "crowd", "deep", "mono", "massive", "quiet", "stuck")
EVERY = 19


def rare(case, every=EVERY):
    """Size class of this case: one in `every` is an extreme one."""
    return RARE[case // every % len(RARE)] if case % every == 7 else None


def stream(rng, size=None, geometry=None, pattern=None, offset=None, scale=None, k=None, d=None, N=None, close=None):
    if size is None:
        size = rng.choice(["tiny", "small", "medium", "large", "wide", "many"], p=[.2, .38, .24, .06, .07, .05])
    elif size == "mono":
        pattern = "lonely"
    elif size == "quiet":
        pattern = "away"
    elif size in ("huge", "massive") and pattern is None and rng.random() < 0.5:
        pattern = str(rng.choice(["gap", "gap", "return"]))
    lo, hi, ks, ds = SIZES[size]
    N = int(rng.integers(lo, hi + 1)) if N is None else N
    k = int(rng.choice(ks)) if k is None else k
    k = min(k, N)
    d = int(rng.choice(ds)) if d is None else d
    pattern = str(rng.choice(PATTERNS)) if pattern is None else pattern
    geometry = str(rng.choice(GEOMETRIES)) if geometry is None else geometry
    ids = label_sequence(rng, N, k, pattern)
    X = points(rng, ids, k, d, geometry)
    if close is None and rng.random() < 0.12:
        close = str(rng.choice(["giants", "giants", "dwarfs", "mixed", "ends"]))
    if close is not None:
        X = approach(rng, X, ids, close)
    if size == "quiet":        # the cluster that returns is wide, so that it matters
        own = np.asarray(ids) == ids[0]
        X[own] = X[own].mean(axis=0) + float(rng.choice([1.0, 3.0])) * (X[own] - X[own].mean(axis=0))
    spiced = bool(rng.random() < 0.4) or size == "stuck"
    if spiced:
        X = spice(rng, X, ids, size == "stuck")
    if scale is None:
        scale = float(rng.choice([1.0, 1e-3, 1e-2, 50.0, 1e3, 1e-5, 1e-8, 1e5, 1e7, 1e-12, 1e-20, 1e-40, 1e12, 1e25],
                                p=[.55, .08, .07, .08, .08, .03, .02, .02, .02, .01, .01, .01, .01, .01]))
    if offset is None:
        offset = float(rng.choice([0.0, 0.0, 0.0, 5.0, 100.0, 1e4]))
    X = X * scale
    if offset:
        X = X + offset * scale * rng.choice([-1.0, 1.0, 0.5], size=d)
    meta = dict(size=str(size), N=N, k=len(set(ids)), d=d, pattern=pattern, geometry=geometry, scale=scale,
                offset=offset, spiced=spiced, close=close)
    return np.ascontiguousarray(X), [int(i) for i in ids], meta


BULK = ("rows", "clusters", "features", "dominated", "edges")


def bulk(rng, kind, few=False):
    """A data set too large for a step-by-step run: (X, ids, meta)."""
    if kind == "edges":        # cluster sizes on and beside the borders of blocks
        k, d = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        base = rng.choice([32, 64, 128, 256, 256, 512, 1024, 2048, 4096, 100, 250, 500, 1000, 3000], k)
        sizes = [int(b) * (int(rng.integers(1, 4)) if b <= 1024 else 1) + int(rng.choice([-1, 0, 1, 1])) for b in base]
        if rng.random() < 0.3:         # the border is that of the whole batch
            sizes[0] = max(1, int(rng.choice([1024, 2048, 4096, 1000, 5000])) + int(rng.choice([-1, 0, 1])) - sum(sizes[1:]))
        N = sum(sizes)
    elif kind in ("rows", "dominated"):
        N = int(rng.choice([21000, 40000, 70000, 140000], p=[.15, .15, .45, .25]))
        k, d = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    elif kind == "clusters":
        k = int(rng.choice([100, 130] if few else [270, 400, 530]))
        N, d = 3 * k + int(rng.integers(0, k)), int(rng.integers(1, 3))
    else:
        N, k, d = int(rng.integers(60, 200)), int(rng.integers(2, 5)), int(rng.choice([200, 260, 300]))
    if kind == "dominated":
        ids = np.zeros(N, dtype=int)
        at = rng.choice(N, 400, replace=False)
        ids[at] = np.concatenate([np.arange(1, k), rng.integers(0, k, 401 - k)])
    elif kind == "edges":
        ids = np.repeat(np.arange(k), sizes)
        ids = ids if rng.random() < 0.3 else rng.permutation(ids)
    else:
        ids = np.concatenate([np.arange(k), rng.integers(0, k, N - k)])
        ids = np.sort(ids) if rng.random() < 0.3 else rng.permutation(ids)
    C = rng.normal(size=(k, d)) * 5.0 if kind != "clusters" else rng.uniform(-60, 60, size=(k, d))
    X = C[ids] + rng.normal(size=(N, d)) * rng.uniform(0.3, 2.0, size=(k, 1))[ids]
    if kind != "features" and rng.random() < 0.4:
        X = X + float(rng.choice([-3.0, 20.0, 500.0]))
    return np.ascontiguousarray(X), ids, dict(size="bulk", N=N, k=k, d=d, kind=kind)


def rcip_safe(X):
    """False where a cluster covariance can exceed rCIP's 10^(-12/d) ridge by so
    much that the sum is singular in double precision (see KNOWN_FINDINGS.txt)."""
    d = X.shape[1]
    if d == 1:
        return True
    X = np.asarray(X, dtype=float)
    return float(((X - X[0]) ** 2).sum(axis=1).max()) < 1e12 * 10.0 ** (-12.0 / d)


def stream_for(rng, name, **kw):
    """A stream the named index is specified for."""
    while True:
        X, labels, meta = stream(rng, **kw)
        if name != "rCIP" or rcip_safe(X):
            return X, labels, meta


def checkpoints(rng, labels, limit=24):
    """Prefix lengths worth a verdict: all of them for short streams; otherwise
    those around the appearance of clusters, a random sample, and the end."""
    N = len(labels)
    first2 = None
    seen = set()
    news = []
    for i, l in enumerate(labels):
        if l not in seen:
            seen.add(l)
            news.append(i + 1)
            if len(seen) == 2:
                first2 = i + 1
    if first2 is None:
        return []
    if N - first2 <= limit:
        return list(range(first2, N + 1))
    pts = {N, N - 1, first2}
    for c in (news if len(news) <= 6 else list(rng.choice(news, 6, replace=False))):
        pts.update((int(c), int(c) + 1, int(c) + 2))
    room = max(4, limit - len(pts))
    pts.update(int(i) for i in rng.integers(first2, N + 1, room))
    return sorted(p for p in pts if first2 <= p <= N)


LABEL_POOLS = ("identity", "negative", "sparse", "onebased", "hashy", "wide", "reversed", "bytes", "minusone",
               "unsigned")


MODULI = (31, 37, 61, 89, 97, 101, 113, 127, 131, 151, 181, 199, 211, 251, 257, 307, 383, 401, 499, 503, 509, 511, 521, 599,
          601, 701, 743, 769, 797, 887, 907, 911, 997, 999, 1009, 1013, 1021, 1031, 1223, 1543, 1999, 2003, 2039, 2047, 2053,
          3001, 3079, 4001, 4091, 4093, 4099, 5003, 6151, 7919, 8009, 8191, 8209, 9973, 9999, 10007, 12289, 16381, 16411,
          24593, 32749, 32771, 46337, 49157, 50021, 65521, 65535, 65537, 65539, 98317, 99989, 99991, 99999, 100003, 100019,
          104729, 131071, 196613, 262139, 262147, 393241, 500009, 524287, 786433, 999979, 999983, 999999, 1000003, 1000033,
          1048573, 1048583, 1299709, 1572869, 2097143, 3145739, 6291469, 7368787, 8388593, 9999991, 10000019, 12582917,
          15485863, 16777213, 16777259, 32452843, 49979687, 67867967, 86028121, 99999989, 100000007, 122949829, 179424673,
          198491317, 256203161, 433494437, 982451653, 998244353, 999999937, 1000000007, 1000000009, 2147483629, 2147483647,
          2654435761, 4294967291, 4294967295, 4294967311, 10 ** 12 + 39, 2 ** 61 - 1)


def rename(rng, k, pool):
    """An injective map from 0..k-1 to integers."""
    if pool == "identity":
        vals = list(range(k))
    elif pool == "negative":
        vals = [-(i + 1) for i in range(k)]
    elif pool == "onebased":
        vals = [i + 1 for i in range(k)]
    elif pool == "reversed":
        vals = list(range(k))[::-1]
    elif pool == "sparse":
        vals = [int(v) for v in rng.choice(10 ** 6, k, replace=False)]
    elif pool == "hashy":       # values that collide in narrow or hashed ids
        pairs = [(-1, -2), (0, 2 ** 8), (1, 2 ** 8 + 1), (-1, 255), (127, 128), (-128, 128), (0, 2 ** 16),
                 (2 ** 16 + 1, 1), (-1, 2 ** 16 - 1), (2 ** 31 - 1, -2 ** 31 - 1), (2 ** 31, -2 ** 31), (2 ** 32, 0),
                 (2 ** 32 + 1, 1), (-1, 2 ** 32 - 1), (2 ** 61 - 1, 0), (2 ** 61, 1), (2 ** 53, 2 ** 53 + 1),
                 (-2 ** 53, -2 ** 53 - 1), (2 ** 24, 2 ** 24 + 1), (2 ** 62, 2 ** 62 + 1), (2 ** 63 - 1, 2 ** 63 - 2),
                 (-2 ** 63, -2 ** 63 + 1), (7, -7), (10, -10), (3, 13), (4, 104), (5, 1005), (6, 1030), (8, 65544),
                 (10 ** 9, 10 ** 9 + 1), (1, 10), (12, 21)]
        for _ in range(24):
            a = int(rng.integers(-20, 300))
            step = int(2 ** rng.integers(3, 62)) if rng.random() < 0.6 else int(10 ** rng.integers(1, 18))
            pairs.append((a, a + step * int(rng.choice([-1, 1]))))
        for _ in range(12):     # sizes of hash tables
            a = int(rng.integers(-20, 300))
            pairs.append((a, a + int(rng.choice(MODULI)) * int(rng.choice([-3, -1, 1, 1, 2]))))
        base = []
        for i in rng.permutation(len(pairs)):
            base += [v for v in pairs[i] if v not in base]
        fill = 2 ** 33
        while len(base) < k:
            if fill not in base:
                base.append(fill)
            fill += 1
        vals = base[:k]
    elif pool == "unsigned":    # only uint64 holds them all
        base = [2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64 - 2, 0, 1, 2 ** 63 - 1, 2 ** 32, 2 ** 63 + 2 ** 32]
        base += [2 ** 63 + 1000 + i for i in range(max(0, k - len(base)))]
        vals = [base[i] for i in rng.permutation(len(base))[:k]]
    elif pool == "wide":
        vals = [int(v) for v in rng.integers(-2 ** 62, 2 ** 62, k)]
        while len(set(vals)) < k:
            vals = [int(v) for v in rng.integers(-2 ** 62, 2 ** 62, k)]
    elif pool == "bytes":
        if k > 120:
            return rename(rng, k, "sparse")
        vals = [int(v) for v in rng.choice(np.arange(-60, 60), k, replace=False)]
    elif pool == "minusone":
        vals = [i - 1 for i in range(k)]
    else:
        raise KeyError(pool)
    if rng.random() < 0.5:
        vals = [vals[i] for i in rng.permutation(k)]
    assert len(set(vals)) == k
    return vals


def crossing(rng, k):
    """An injective map to integers that no single 64-bit type holds (one sample at a time only)."""
    pairs = [(2 ** 63, -2 ** 63), (2 ** 64 - 1, -1), (2 ** 64 - 2, -2), (2 ** 63 + 5, -2 ** 63 + 5), (2 ** 64, 0),
             (2 ** 64 + 1, 1), (2 ** 65 + 2, 2), (-2 ** 64 + 3, 3), (10 ** 30, 10 ** 30 + 1), (2 ** 100, 4),
             (2 ** 64 - 2 ** 31, -2 ** 31), (2 ** 128 + 7, 7)]
    vals = [v for i in rng.permutation(len(pairs)) for v in pairs[i]]
    vals += list(range(1000, 1000 + max(0, k - len(vals))))
    return vals[:k]


def as_int(rng, v):
    """The same integer carried by one of the integer types that can hold it."""
    opts = [int]
    for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
        ii = np.iinfo(t)
        if ii.min <= v <= ii.max:
            opts.append(t)
    return opts[int(rng.integers(0, len(opts)))](v)


def int_array(rng, vals):
    """A label vector of an integer dtype that can hold all values."""
    opts = []
    lo, hi = min(vals), max(vals)
    for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
        ii = np.iinfo(t)
        if ii.min <= lo and hi <= ii.max:
            opts.append(t)
    return np.array(vals, dtype=opts[int(rng.integers(0, len(opts)))])
