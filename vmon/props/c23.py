"""Cost: constant per incremental update, linear per batch."""
import gc
import sys
import time

import numpy as np

from ..target import NAMES, Violation, call, make

CASES = {"quick": 270, "thorough": 1500}
CHUNK = 1
RULE = ("A case is one index and one workload with the number of clusters and features held fixed. Interpreter instructions "
        "executed by the call are counted with sys.monitoring (deterministic): the updates of every cluster around sample "
        "150 against those around samples 1200 and 5000, and batches of N, 2N and 4N samples; CPU time (least of several "
        "runs, confirmed again before it counts) of batches of N and 8N samples, and of updates of a young object and of one 40 thousand samples old, shows what happens inside NumPy. Distinct "
        "by index, workload and data.")
ASSUMPTIONS = ["work inside NumPy is only seen by the CPU-time comparison, which needs a factor 2.5 over linear growth at "
               "8 times the samples, or 2 over the updates of a young object"]
KINDS = ("inc", "batch", "time", "inctime")
REQUIRED = dict(("%s_%s" % (kind, n), 3) for n in NAMES for kind in KINDS)

MON = sys.monitoring
TOOL = 4


class Counter:
    """Interpreter instructions executed while it is open."""

    def __enter__(self):
        self.n = 0

        def one(code, offset):
            self.n += 1
        MON.use_tool_id(TOOL, "vmon-cost")
        MON.register_callback(TOOL, MON.events.INSTRUCTION, one)
        gc.disable()
        MON.set_events(TOOL, MON.events.INSTRUCTION)
        return self

    def __exit__(self, *exc):
        MON.set_events(TOOL, 0)
        gc.enable()
        MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
        MON.free_tool_id(TOOL)
        return False


def data(rng, n, k, d, centres=None):
    C = 6.0 * rng.normal(size=(k, d)) if centres is None else centres
    ids = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])
    X = np.ascontiguousarray(C[ids] + rng.normal(size=(n, d)))
    return X, ids


def incremental(ctx, name, k, d):
    rng, tr = ctx.rng, ctx.tr
    far = 5000 if ctx.tier == "quick" else 20000
    at = (150, 1200, far)
    X, ids = data(rng, far + k + 1, k, d)
    for s in at:                       # each window updates each cluster once
        ids[s:s + k] = np.arange(k)
    obj = make(name)
    for i in range(min(k + 2, 10)):    # first use of everything, on another object
        call(tr, make(name), X[i], int(ids[i]), name)
    cost = []
    i = 0
    for s in at:
        while i < s:
            call(tr, obj, X[i], int(ids[i]), name)
            i += 1
        with Counter() as c:
            for j in range(k):
                call(tr, obj, X[i + j], int(ids[i + j]), name)
        i += k
        cost.append(c.n)
    tr.decided += 2
    tr.tag("inc_" + name)
    tr.tag("instructions", sum(cost))
    if max(cost[1:]) > 1.3 * cost[0] + 200 * k:
        raise Violation("%s: updating each of %d clusters takes %s interpreter instructions around samples %s"
                        % (name, k, cost, list(at)), index=name, k=k, d=d, cost=cost)


def batches(ctx, name, k, d):
    rng, tr = ctx.rng, ctx.tr
    N = int(rng.integers(250, 700)) * (1 if ctx.tier == "quick" else 4)
    C = 6.0 * rng.normal(size=(k, d))
    call(tr, make(name), *data(rng, N, k, d, C), name)
    cost = []
    sizes = (N, 2 * N, 4 * N)
    grouped = rng.random() < 0.3       # the same order for all sizes: it may decide what a sample costs
    for n in sizes:
        X, ids = data(rng, n, k, d, C)
        if grouped:
            X, ids = X[np.argsort(ids)], np.sort(ids)
        obj = make(name)
        with Counter() as c:
            call(tr, obj, X, ids, name)
        cost.append(c.n)
    tr.decided += 2
    tr.tag("batch_" + name)
    tr.tag("instructions", sum(cost))
    for m, c in zip((2, 4), cost[1:]):
        if c > 1.2 * m * cost[0] + 20000:
            raise Violation("%s: batches of %s samples take %s interpreter instructions" % (name, list(sizes), cost),
                            index=name, k=k, d=d, cost=cost)


def timing(ctx, name, k, d):
    rng, tr = ctx.rng, ctx.tr
    N = 2500
    C = 6.0 * rng.normal(size=(k, d))
    small, large = data(rng, N, k, d, C), data(rng, 8 * N, k, d, C)

    def least(D, times):
        best = np.inf
        for _ in range(times):
            obj = make(name)
            t = time.process_time()
            call(tr, obj, *D, name)
            best = min(best, time.process_time() - t)
        return best
    tr.tag("time_" + name)
    tr.decided += 1
    call(tr, make(name), *small, name)
    seen = []
    for _ in range(4):                 # slow only if it is slow every time
        s, b = least(small, 3), least(large, 2)
        seen.append([s, b])
        if b <= 20.0 * s + 0.05:
            return
    raise Violation("%s: CPU time of batches of %d and %d samples: %s" % (name, N, 8 * N, seen), index=name, k=k, d=d)


def inc_timing(ctx, name, k, d):
    """CPU time of updates: work inside NumPy that grows with the stream."""
    rng, tr = ctx.rng, ctx.tr
    far = 40000 if ctx.tier == "quick" else 120000
    X, ids = data(rng, far + 4000, k, d)
    ids = [int(i) for i in ids]
    old = make(name)

    def feed(obj, a, b):
        t = time.process_time()
        for i in range(a, b):
            obj.get_cvi(X[i], ids[i])
        tr.events += b - a
        return time.process_time() - t
    feed(old, 0, far)
    tr.decided += 1
    tr.tag("inctime_" + name)
    seen = []
    for r in range(4):                 # slow only if it is slow every time, side by side with a new object
        young = make(name)
        feed(young, 0, 300)
        t = [(feed(young, 300 + 100 * w, 400 + 100 * w), feed(old, far + 1000 * r + 100 * w, far + 1000 * r + 100 * w + 100))
             for w in range(10)]
        y, o = min(a for a, _ in t), min(b for _, b in t)
        seen.append([y, o])
        if o <= 2.0 * y + 0.002:
            return
    raise Violation("%s: CPU time of 100 updates around sample 700 and around sample %d: %s" % (name, far, seen),
                    index=name, k=k, d=d)


def run_case(ctx, case):
    rng = ctx.rng
    name = NAMES[case % 9]
    kind = KINDS[(case // 9) % 4]
    k = int(rng.choice([2, 3, 4, 6]))
    d = int(rng.choice([1, 2, 3, 5]))
    ctx.meta = dict(kind="%s %s" % (kind, name), k=k, d=d)
    ctx.sign("%s %s %d %d %d" % (name, kind, k, d, case))
    {"inc": incremental, "batch": batches, "time": timing, "inctime": inc_timing}[kind](ctx, name, k, d)


def example():
    return dict(workloads=KINDS)
