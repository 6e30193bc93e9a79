"""Objects are independent: interleavings and thread schedules."""
import os
import random
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from .. import gen
from ..target import NAMES, REPO, Violation, call, make, try_call
from ..target import Trace
from . import common

CASES = {"quick": 1500, "thorough": 12000}
CHUNK = 2
RULE = ("A case is a set of 4-14 objects (several of the same index, both modes, own streams of different dimension and "
        "labels, some with the same samples labelled differently, some handed over in the same reused arrays, half of them with calls in between that have to be refused) driven by a random interleaving of single calls and late constructions, by the same with objects that move from thread to thread between calls, by one thread per object released "
        "together with a 1 microsecond switch interval, or by threads under a seeded scheduler that preempts them between "
        "source lines inside get_cvi; every value is compared with a solo run of that object "
        "and with the definition. Non-trivial if at least two objects were live at once. Distinct by SHA-1 of the "
        "streams and the schedule; one case in 45 keeps up to 1100 objects of one class alive; interleavings and actual thread switches are counted.")
ASSUMPTIONS = ["steps on which the index is undefined or ill conditioned give no verdict"]
REQUIRED = dict([("shared_" + n, 100) for n in NAMES] + [("preemptions_inside_a_call", 20000), ("shared_buffers", 50), ("big_batches", 30), ("crowds", 9), ("refusals_in_between", 1000), ("moved_between_threads", 300), ("thread_switches", 200), ("interleaving_switches", 2000)])


class Stepper:
    """Seeded scheduler: one thread runs at a time, and at traced lines of the
    library the token moves to another thread with some probability."""

    def __init__(self, rng, n):
        self.cv = threading.Condition()
        self.rand = random.Random(int(rng.integers(2 ** 31)))
        self.p = float(rng.choice([0.02, 0.1, 0.4]))
        self.alive = set(range(n))
        self.owner = 0
        self.moves = 0
        self.switches = 0
        self.prefix = os.path.join(os.path.realpath(REPO), "src")
        self.names = {}

    def mine(self, f):
        r = self.names.get(f)
        if r is None:
            r = self.names[f] = os.path.realpath(f).startswith(self.prefix)
        return r

    def enter(self, t):
        with self.cv:
            self._wait(t)
        sys.settrace(lambda frame, event, arg: self._local(t) if self.mine(frame.f_code.co_filename) else None)

    def _local(self, t):
        def local(frame, event, arg):
            if event == "line" and self.rand.random() < self.p:
                with self.cv:
                    others = sorted(self.alive - {t})
                    if others and self.owner == t:
                        self.owner = self.rand.choice(others)
                        self.moves += 1
                        self.switches += 1
                        self.cv.notify_all()
                        self._wait(t)
            return local
        return local

    def _wait(self, t):
        while self.owner != t:
            seen = self.moves
            if not self.cv.wait(2.0) and self.moves == seen:
                # the owner is stuck (on a lock we hold, say): let this one run
                self.owner = t
                self.moves += 1

    def leave(self, t):
        sys.settrace(None)
        with self.cv:
            self.alive.discard(t)
            if self.alive and (self.owner == t or self.owner not in self.alive):
                self.owner = self.rand.choice(sorted(self.alive))
            self.moves += 1
            self.cv.notify_all()


class Job:
    def __init__(self, rng, name, mode, dim=None, k=None, N=None):
        self.name, self.mode = name, mode
        size = str(rng.choice(["tiny", "small", "small", "medium", "medium"]))
        if mode == "bigbatch":
            self.mode, size = "batch", "massive"
        self.X, self.labels, self.meta = gen.stream_for(rng, name, size=size, d=dim, k=k, N=N)
        self.solo = None
        self.values = []
        self.obj = None
        self.refuse = {}          # calls this object has to refuse, by step
        if rng.random() < 0.5:
            self.after = int(rng.integers(0, 4)) if self.mode == "batch" else 0
            where = range(1, 1 + self.after) if self.mode == "batch" else rng.integers(1, len(self.labels) + 1, 3)
            self.refuse = {int(i): str(rng.choice(("mode", "dim", "cube"))) for i in where}
        else:
            self.after = 0
        self.bufs = None          # arrays shared with other objects, by shape

    def handed(self, A):
        if self.bufs is None:
            return A
        b = self.bufs.setdefault((A.shape, A.dtype.str), np.empty_like(A))
        b[...] = A
        return b

    def steps(self):
        return len(self.labels) if self.mode == "inc" else 1 + self.after

    def refused(self, tr, kind):
        """A call that mixes modes, changes the dimension or is neither a sample nor a batch."""
        d = self.X.shape[1]
        one = kind == "dim" if self.mode == "inc" else kind != "mode"
        if kind == "cube":
            args = np.zeros((2, 2, d)), np.array([0, 1])
        elif one:
            args = np.ones(d + 1), self.labels[0]
        else:
            args = (np.eye(4, d), np.array([0, 1, 0, 1])) if self.mode == "inc" else (np.ones(d), self.labels[0])
        v, e = try_call(tr, self.obj, *args)
        tr.tag("refusals_in_between")
        if not isinstance(e, ValueError):
            raise Violation("%s (%s object among others): a %s call that has to be refused gave %r"
                            % (self.name, self.mode, kind, v if e is None else e), index=self.name)

    def step(self, tr, i):
        if self.obj is None:
            self.obj = make(self.name)
            if self.obj.criterion_value != 0.0:
                raise Violation("a new %s object is not fresh: criterion_value %r" % (self.name, self.obj.criterion_value),
                                index=self.name)
        if i and i in self.refuse:
            self.refused(tr, self.refuse[i])
        if self.mode == "batch" and i:
            return
        if self.mode == "inc":
            self.values.append(call(tr, self.obj, self.handed(self.X[i]), self.labels[i], self.name))
        else:
            self.values.append(call(tr, self.obj, self.handed(self.X), self.handed(np.array(self.labels)), self.name))

    def run_solo(self, tr):
        self.obj, self.values = None, []
        for i in range(self.steps()):
            self.step(tr, i)
        self.solo = self.values
        self.obj, self.values = None, []

    def judge(self, tr, rng, how):
        pts = gen.checkpoints(rng, self.labels, 8) if self.mode == "inc" else [len(self.labels)]
        P = common.Prefixes(self.X, self.labels, (self.name,))
        if self.mode == "inc":      # every step on which the two runs disagree is a candidate too
            watch = common.Watch(pts)
            pts = [p for p in range(common.first_two(self.labels) or len(self.labels) + 1, len(self.labels) + 1)
                   if watch.wants(tr, 0, p, self.solo[p - 1], self.values[p - 1], self.name)]
        for p in pts:
            i = p - 1 if self.mode == "inc" else 0
            o = P.at(p)
            w = dict(common.witness(self.X, self.labels, p), mode=self.mode)
            common.expect_same(tr, self.solo[i], self.values[i], o, self.name, how, **w)
            common.expect(tr, self.values[i], o, self.name, how, **w)
            if self.name in o:
                tr.tag("shared_" + self.name)
        last = self.obj.criterion_value
        if not (last == self.values[-1] or (last != last and self.values[-1] != self.values[-1])):
            raise Violation("%s: criterion_value of a finished object changed" % self.name, index=self.name)


def kin(rng, jobs):
    """Some jobs start exactly like another one (labels, and perhaps samples)
    and then go their own way."""
    for a, b in zip(jobs, jobs[1:]):
        if a.X.shape[1] != b.X.shape[1] or rng.random() < 0.4:
            continue
        m = int(rng.integers(1, len(a.labels) + 1))
        swap = {int(x): int(y) for x, y in zip(sorted(set(a.labels)), rng.permutation(sorted(set(a.labels))))}
        seen = set(a.labels[:m])
        rest = [swap[l] if rng.random() < 0.8 else l for l in a.labels[m:]]
        if rng.random() < 0.3:
            rest = [l + 1000 if l not in seen else l for l in rest]
        labels = list(a.labels[:m]) + rest
        X = a.X.copy()
        how = rng.random()
        if how < 0.3:             # the same samples, labelled differently
            labels = [int(l) for l in rng.permutation(labels)]
            b.X, b.labels = a.X if rng.random() < 0.5 else X, labels
            if b.name == "rCIP" and not gen.rcip_safe(X):
                b.X = X / (1.0 + np.abs(X).max())
            b.mode = a.mode
            continue
        if how < 0.65:
            X = X[rng.permutation(len(X))]
        else:
            X[m:] = X[m:][rng.permutation(len(X) - m)]
        if b.name == "rCIP" and not gen.rcip_safe(X):
            continue
        b.X, b.labels = np.ascontiguousarray(X), labels


def crowd(ctx, name):
    """Hundreds of objects of one class alive at once, in rounds of one sample each."""
    rng, tr = ctx.rng, ctx.tr
    m = int(rng.choice([150, 300, 700, 1100]))
    N, k, d = int(rng.integers(7, 13)), int(rng.integers(2, 4)), int(rng.integers(1, 4))
    ctx.meta = dict(kind="crowd of objects", k=k, N=N, d=d)
    X = 3.0 * rng.normal(size=(m, N, d))
    L = np.array([list(rng.permutation(k)) + list(rng.integers(0, k, N - k)) for _ in range(m)])
    ctx.sign(X, L)
    objs = [make(name) for _ in range(m)]
    vals = np.empty((m, N))
    for i in range(N):
        for t in (range(m) if rng.random() < 0.5 else rng.permutation(m)):
            vals[t, i] = call(tr, objs[t], X[t, i], int(L[t, i]), name)
    bad = [t for t in range(m) if objs[t].criterion_value != vals[t, -1] and vals[t, -1] == vals[t, -1]]
    if bad:
        raise Violation("%s: criterion_value of object %d of %d changed" % (name, bad[0], m), index=name)
    for t in range(m):
        solo = common.inc_values(tr, name, X[t], [int(l) for l in L[t]])
        P = None
        pts = [N] if t % 10 else range(k, N + 1)
        for p in range(k, N + 1):
            if p in pts or common.differs(solo[p - 1], vals[t, p - 1], name):
                P = P or common.Prefixes(X[t], [int(l) for l in L[t]], (name,))
                w = common.witness(X[t], L[t], p)
                common.expect_same(tr, solo[p - 1], vals[t, p - 1], P.at(p), name, "one of %d live objects" % m, **w)
                common.expect(tr, vals[t, p - 1], P.at(p), name, "one of %d live objects" % m, **w)
    tr.tag("crowds")


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    if case % 45 == 40:
        return crowd(ctx, NAMES[case // 45 % 9])
    stepped = case % 3 == 2
    threaded = stepped or case % 6 == 1
    m = int(rng.integers(4, 15)) if not threaded else int(rng.integers(2, 4)) if stepped else int(rng.integers(3, 9))
    shared_dim = int(rng.choice([1, 2, 3])) if rng.random() < 0.5 else None
    if stepped:
        # two indices at most, so that objects of one class meet inside a call
        names = [NAMES[case // 3 % 9]] * 2 + [str(rng.choice(NAMES))] * (m - 2)
        shared_k = int(rng.choice([2, 3, 4])) if rng.random() < 0.7 else None
    elif rng.random() < 0.5:
        names = [str(rng.choice(NAMES))] * m
    else:
        names = [str(n) for n in rng.choice(NAMES, m)]
    big = case % 18 in (2, 7)         # large batches on objects of one class, side by side
    if big:
        names = [NAMES[case // 18 % 9]] * min(m, 3)
        shared_N = int(rng.integers(4200, 11000)) if rng.random() < 0.7 else None
        shared_dim = shared_dim or (int(rng.choice([1, 2, 5])) if shared_N else None)
        tr.tag("big_batches")
    jobs = [Job(rng, n, "bigbatch" if big else "inc" if rng.random() < 0.8 else "batch", shared_dim,
                shared_k if stepped else None, shared_N if big else None) for n in names]
    if rng.random() < 0.5:
        kin(rng, jobs)
    jobs = [j for j in jobs if not (j.mode == "batch" and len(set(j.labels)) < 2)]
    ctx.meta = dict(kind="preempted threads" if stepped else "threads" if threaded else "interleaved", k=len(jobs))
    if not threaded and rng.random() < 0.4:
        bufs = {}
        for j in jobs:
            j.bufs = bufs
        tr.tag("shared_buffers")
    # in half of the cases the objects meet before any of them has run alone
    solo_first = bool(rng.random() < 0.5)
    if solo_first:
        for j in jobs:
            j.run_solo(tr)
    if threaded:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        barrier = threading.Barrier(len(jobs))
        traces = [Trace() for _ in jobs]
        errs = []
        log = []
        sched_ = Stepper(rng, len(jobs)) if stepped else None

        def work(t):
            try:
                barrier.wait(60)
                if stepped:
                    sched_.enter(t)
                for i in range(jobs[t].steps()):
                    log.append(t)
                    jobs[t].step(traces[t], i)
            except Violation as e:
                errs.append(e)
            finally:
                if stepped:
                    sched_.leave(t)
        ths = [threading.Thread(target=work, args=(t,)) for t in range(len(jobs))]
        try:
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for t in traces:
            tr.events += t.events
            tr.inc_calls += t.inc_calls
        tr.tag("thread_switches", sum(a != b for a, b in zip(log, log[1:])))
        if stepped:
            tr.tag("preemptions_inside_a_call", sched_.switches)
        if errs:
            raise errs[0]
        sched = log
    else:
        sched = []
        for t, j in enumerate(jobs):
            sched += [t] * j.steps()
        if rng.random() < 0.3:      # strict alternation
            pos = {}
            keyed = []
            for t in sched:
                pos[t] = pos.get(t, 0) + 1
                keyed.append((pos[t], t))
            sched = [t for _, t in sorted(keyed)]
        else:
            rng.shuffle(sched)
        at = [0] * len(jobs)
        pools = [ThreadPoolExecutor(1) for _ in range(3)] if rng.random() < 0.25 else []
        try:
            for t in sched:
                if pools and rng.random() < 0.6:      # the object moves to another thread between calls
                    pools[int(rng.integers(0, 3))].submit(jobs[t].step, tr, at[t]).result()
                    tr.tag("moved_between_threads")
                else:
                    jobs[t].step(tr, at[t])
                at[t] += 1
        finally:
            for p in pools:
                p.shutdown()
        tr.tag("interleaving_switches", sum(a != b for a, b in zip(sched, sched[1:])))
    ctx.sign(*[j.X for j in jobs], list(map(int, sched)))
    if not solo_first:
        for j in jobs:
            v, o = j.values, j.obj
            j.run_solo(tr)
            j.values, j.obj = v, o
    for j in jobs:
        j.judge(tr, rng, "%d objects %s" % (len(jobs), ctx.meta["kind"]))


def example():
    return dict(example_schedule="objects 0..m-1, one call each: 0 2 1 1 0 3 2 ...")
