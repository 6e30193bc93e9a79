"""Bounded incremental state, linear batch memory."""
import gc
import pickle
import tracemalloc

import numpy as np

from .. import gen
from ..target import NAMES, Violation, call, make
from . import common

CASES = {"quick": 108, "thorough": 720}
CHUNK = 1
RULE = ("A case is one index and one workload: incremental (same k and d, object size and traced allocations compared "
        "between sample 400 and sample 4400 (17600 in some), and the peak of single updates), batch (traced peak at N and 4N samples, "
        "object size and retained memory afterwards) or churn (many short-lived objects, retained memory). Excess has "
        "to show three times in a row. Measured with tracemalloc (NumPy buffers included) and pickle. Distinct by index, workload, k, d and data.")
ASSUMPTIONS = ["memory the interpreter or NumPy obtain behind tracemalloc's back (BLAS work buffers) is not seen"]
KINDS = ("inc", "batch", "churn")
REQUIRED = dict([("%s_%s" % (kind, n), 3) for n in NAMES for kind in KINDS])


def size_of(obj):
    return len(pickle.dumps(obj, protocol=4))


def traced():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def incremental(ctx, name, k, d):
    rng, tr = ctx.rng, ctx.tr
    n0, n1 = 400, 4400 if ctx.tier == "quick" else 12400
    if ctx.case // 27 % 4 == 3:
        n1 *= 4
    X = rng.normal(size=(n1 + 40, d)) + 5.0 * rng.normal(size=(k, d))[np.arange(n1 + 40) % k]
    ids = np.concatenate([np.arange(k), rng.integers(0, k, n1 + 40 - k)])
    # a quarter of the runs repeat few distinct samples, a quarter present one long cluster
    if rng.random() < 0.25:
        X = X[rng.integers(0, 50, len(X))]
    X = np.ascontiguousarray(X)
    kinds = int(rng.integers(0, 3))       # label types: Python, one NumPy type, a mixture
    ids = [int(i) if kinds == 0 else np.int64(i) if kinds == 1 else gen.as_int(rng, int(i)) for i in ids]
    obj = make(name)
    tracemalloc.start()
    try:
        def feed(a, b):
            for i in range(a, b):
                call(tr, obj, X[i], ids[i], name)

        def peak(a, b):
            top = 0
            for i in range(a, b):
                base = tracemalloc.get_traced_memory()[0]
                tracemalloc.reset_peak()
                call(tr, obj, X[i], ids[i], name)
                top = max(top, tracemalloc.get_traced_memory()[1] - base)
            return top
        feed(0, n0 - 20)
        p0 = peak(n0 - 20, n0)
        s0, m0 = size_of(obj), traced()
        third = (n1 - n0) // 3
        m, s = [m0], [s0]
        for t in range(3):
            feed(n0 + t * third, n0 + (t + 1) * third if t < 2 else n1)
            m.append(traced())
            s.append(size_of(obj))
        p1 = peak(n1, n1 + 20)
        s1, m1 = size_of(obj), traced()
    finally:
        tracemalloc.stop()
    tr.decided += 3
    tr.tag("inc_" + name)
    w = dict(index=name, k=k, d=d, samples=[n0, n1], sizes=[s0, s1], retained=m, grown=s, peaks=[p0, p1])
    if s1 - s0 > 512 + 24 * k:
        raise Violation("%s: object grew from %d to %d bytes between sample %d and %d" % (name, s0, s1, n0, n1), **w)
    # growth with the samples shows in every third
    grow = int(min(np.diff(m)))
    if grow > 4 * third:
        raise Violation("%s: retained memory grew by %d bytes or more in each third of samples %d to %d"
                        % (name, grow, n0, n1), **w)
    if p1 - p0 > 8192 + p0:
        raise Violation("%s: one update allocates %d bytes at sample %d, %d at sample %d" % (name, p0, n0, p1, n1), **w)


def batches(ctx, name, k, d):
    rng, tr = ctx.rng, ctx.tr
    res = []
    N = int(rng.choice([1200, 2500])) * (1 if ctx.tier == "quick" else 2)
    if ctx.case // 27 % 4 == 3:
        N = 12000
    for n in (N, 4 * N):
        ids = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
        if rng.random() < 0.3:
            ids.sort()
        X = np.ascontiguousarray(5.0 * rng.normal(size=(k, d))[ids] + rng.normal(size=(n, d)))
        lab = ids.astype(np.int64)
        # warm up allocator and lazily created state
        call(tr, make(name), X[::8], lab[::8], name)
        obj = make(name)
        tracemalloc.start()
        try:
            base = traced()
            tracemalloc.reset_peak()
            call(tr, obj, X, lab, name)
            top = tracemalloc.get_traced_memory()[1] - base
            kept = traced() - base
        finally:
            tracemalloc.stop()
        res.append((n, top, kept, size_of(obj)))
    (n0, t0, k0, s0), (n1, t1, k1, s1) = res
    tr.decided += 3
    tr.tag("batch_" + name)
    w = dict(index=name, k=k, d=d, measured=[list(r) for r in res])
    if t1 > 6.0 * t0 + 262144:
        raise Violation("%s: batch peak memory grew from %d bytes at %d samples to %d at %d" % (name, t0, n0, t1, n1), **w)
    # input size times clusters, with a generous constant
    limit = 48 * n1 * (d + 1) * 8 * (k + 1) + 2 ** 20 + 256 * k * k * (d * d + 4)
    if t1 > limit:
        raise Violation("%s: batch of %d samples needs %d bytes, limit %d" % (name, n1, t1, limit), **w)
    if s1 - s0 > 512 + 24 * k:
        raise Violation("%s: object after a batch has %d bytes at %d samples, %d at %d" % (name, s0, n0, s1, n1), **w)
    if k1 - k0 > 4096 + 200 * k:
        raise Violation("%s: %d bytes retained after a batch of %d samples, %d after %d" % (name, k0, n0, k1, n1), **w)


def churn(ctx, name, k, d):
    rng, tr = ctx.rng, ctx.tr
    rounds = 80
    tracemalloc.start()
    try:
        def go(m_):
            for _ in range(m_):
                n = 60
                ids = np.concatenate([np.arange(k), rng.integers(0, k, n - k)]) + int(rng.integers(-1000, 1000))
                X = rng.normal(size=(n, d))
                call(tr, make(name), X, ids, name)
                obj = make(name)
                for i in range(12):
                    call(tr, obj, X[i], ids[i] if rng.random() < 0.5 else int(ids[i]), name)
        go(30)
        m = [traced()]
        for _ in range(3):
            go(rounds)
            m.append(traced())
    finally:
        tracemalloc.stop()
    tr.decided += 1
    tr.tag("churn_" + name)
    # a leak repeats in every round; caches that fill once do not
    leak = int(min(np.diff(m)))
    if leak > 8192:
        raise Violation("%s: %d bytes still held after %d objects were dropped, again and again" % (name, leak, 2 * rounds),
                        index=name, retained=m)


def run_case(ctx, case):
    rng = ctx.rng
    name = NAMES[case % 9]
    kind = KINDS[(case // 9) % 3]
    k = int(rng.choice([2, 3, 5, 8]))
    d = int(rng.choice([1, 2, 3, 6]))
    ctx.meta = dict(kind="%s %s" % (kind, name), k=k, d=d)
    ctx.sign("%s %s %d %d %d" % (name, kind, k, d, case))
    measure = {"inc": incremental, "batch": batches, "churn": churn}[kind]
    # allocations of the interpreter itself can land in one measurement, not in three
    for left in (2, 1, 0):
        try:
            measure(ctx, name, k, d)
            return
        except Violation:
            ctx.tr.tag("measured_again")
            if not left:
                raise


def example():
    return dict(workloads=KINDS)
