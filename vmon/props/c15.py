"""Checkpoint and restore at any point."""
import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import gen
from ..target import NAMES, REPO, Violation, call, make, try_call
from . import common

CASES = {"quick": 900, "thorough": 10000}
CHUNK = 4
RULE = ("A case is one index and one stream with checkpoints (every position of short streams, random ones of long "
        "streams) taken by deepcopy or pickle (protocols 0-5), some chained; original and copy then continue with "
        "different samples and each is compared with an uninterrupted object and the definition. Distinct by SHA-1 of "
        "stream, positions and methods.")
ASSUMPTIONS = ["steps on which the index is undefined or ill conditioned give no verdict"]
REQUIRED = dict([("resumed_" + n, 300) for n in NAMES] + [("at_fresh", 50), ("at_single", 100), ("at_multi", 500), ("after_batch", 100), ("other_process", 20)])


def save(rng, obj, name):
    m = int(rng.integers(0, 7))
    try:
        if m == 6:
            return copy.deepcopy(obj), "deepcopy"
        return pickle.loads(pickle.dumps(obj, protocol=m)), "pickle%d" % m
    except Exception as e:  # noqa: BLE001
        raise Violation("%s cannot be saved and restored: %s: %s" % (name, type(e).__name__, e), index=name)


CHILD = """
import pickle, sys
sys.path.insert(0, sys.argv[1])
import vmon.target
import numpy as np
obj, X, labels, pos = pickle.load(open(sys.argv[2], "rb"))
out = [float(obj.criterion_value)]
for i in range(pos, len(labels)):
    out.append(float(obj.get_cvi(X[i], labels[i])))
pickle.dump(out, open(sys.argv[3], "wb"))
"""


def elsewhere(ctx, name, X, labels, straight, P):
    """Resume in another process (other hash seed, nothing computed before)."""
    rng, tr = ctx.rng, ctx.tr
    N = len(labels)
    cut = int(rng.integers(0, N))
    obj = make(name)
    for i in range(cut):
        call(tr, obj, X[i], labels[i], name)
    root = tempfile.mkdtemp(prefix="vmon-c15-")
    try:
        src, dst = os.path.join(root, "in"), os.path.join(root, "out")
        with open(src, "wb") as fh:
            pickle.dump((obj, X, labels, cut), fh, protocol=int(rng.integers(0, 6)))
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        r = subprocess.run([sys.executable, "-c", CHILD, here, src, dst], cwd=root, capture_output=True, text=True,
                           timeout=200, env=dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2 ** 32))), CVI_REPO=REPO))
        if r.returncode or not os.path.exists(dst):
            raise Violation("%s pickled at %d cannot resume in another process: %s" % (name, cut, r.stderr[-600:]), index=name)
        with open(dst, "rb") as fh:
            out = pickle.load(fh)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    tr.decided += 1
    tr.tag("other_process")
    if not same(out[0], obj.criterion_value):
        raise Violation("%s pickled at %d has criterion_value %r in another process, was %r"
                        % (name, cut, out[0], obj.criterion_value), index=name)
    watch = common.Watch(gen.checkpoints(rng, labels, 10))
    for i in range(cut, N):
        if i + 1 >= (common.first_two(labels) or N + 1) and watch.wants(tr, 0, i + 1, out[1 + i - cut], straight[i], name):
            common.expect_same(tr, out[1 + i - cut], straight[i], P.at(i + 1), name,
                               "resumed in another process at %d" % cut, **common.witness(X, labels, i + 1))


def refuse(tr, obj, name, data, label, what):
    tr.decided += 1
    tr.tag("refused")
    _, e = try_call(tr, obj, data, label)
    if not isinstance(e, ValueError):
        raise Violation("%s: %s gave %r instead of ValueError" % (name, what, e), index=name)


def same(a, b):
    return a == b or (a != a and b != b)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    name = NAMES[case % len(NAMES)]
    X, labels, meta = gen.stream_for(rng, name, size=gen.rare(case, 13) or str(rng.choice(["tiny", "small", "medium", "many", "wide"], p=[.3, .47, .17, .03, .03])))
    meta["kind"] = name
    ctx.meta = meta
    N = len(labels)
    # an alternative continuation for the original
    Xa = X[rng.permutation(N)] * 1.5 + 1.0
    if name == "rCIP" and not gen.rcip_safe(np.vstack([X, Xa])):
        Xa = X[rng.permutation(N)]
    la = [int(l) for l in rng.permutation(labels)]
    P = common.Prefixes(X, labels, (name,))
    pts = set(gen.checkpoints(rng, labels, 16))
    watch = common.Watch(pts)
    straight = common.inc_values(tr, name, X, labels)
    cuts = list(range(0, N)) if N <= 14 else sorted(set(int(c) for c in rng.integers(0, N, 8)))
    hows = []
    for cut in cuts:
        obj = make(name)
        for i in range(cut):
            call(tr, obj, X[i], labels[i], name)
        before = obj.criterion_value
        cp, how = save(rng, obj, name)
        hows.append(how)
        tr.decided += 1
        if not same(cp.criterion_value, before) or type(cp) is not type(obj):
            raise Violation("%s restored by %s has criterion_value %r, was %r" % (name, how, cp.criterion_value, before),
                            index=name, cut=cut)
        tr.tag("at_fresh" if cut == 0 else "at_single" if len(set(labels[:cut])) < 2 else "at_multi")
        # the original goes elsewhere, interleaved with the copy
        chain = bool(rng.random() < 0.4)
        swap = bool(rng.random() < 0.5)
        go, other = (cp, obj) if not swap else (obj, cp)
        ov = None
        m = min(N - cut, 10)
        for i in range(cut, N):
            v = call(tr, go, X[i], labels[i], name)
            if i - cut < m:
                ov = call(tr, other, Xa[i], la[i], name)
            if chain and rng.random() < 0.3:
                go, h = save(rng, go, name)
                tr.tag("chained")
            if watch.wants(tr, cut, i + 1, v, straight[i], name):
                o = P.at(i + 1)
                w = dict(common.witness(X, labels, i + 1), cut=cut, how=how, swapped=swap)
                common.expect_same(tr, v, straight[i], o, name, "resumed by %s at %d, sample %d" % (how, cut, i + 1), **w)
                common.expect(tr, v, o, name, "resumed by %s at %d" % (how, cut), **w)
                if name in o:
                    tr.tag("resumed_" + name)
        if ov is not None:
            Xo = np.vstack([X[:cut], Xa[cut:cut + m]])
            lo = labels[:cut] + la[cut:cut + m]
            if len(set(lo)) > 1:
                o = common.Prefixes(Xo, lo, (name,)).at(len(lo))
                common.expect(tr, ov, o, name, "the other of original and copy (%s at %d)" % (how, cut),
                              **dict(common.witness(Xo, lo), cut=cut))
    if meta["k"] > 1:
        obj = make(name)
        v = call(tr, obj, X, np.array(labels), name)
        cp, how = save(rng, obj, name)
        tr.tag("after_batch")
        tr.decided += 1
        if not same(cp.criterion_value, v):
            raise Violation("%s restored by %s after a batch has %r, was %r" % (name, how, cp.criterion_value, v), index=name)
        refuse(tr, cp, name, X[0], labels[0], "a sample after a batch, restored by %s" % how)
        refuse(tr, cp, name, X, np.array(labels), "a second batch, restored by %s" % how)
        if not same(cp.criterion_value, v) or not same(obj.criterion_value, v):
            raise Violation("%s: criterion_value changed by rejected calls after a restore" % name, index=name)
    # what the original refuses the copy refuses
    cut = int(rng.integers(1, N + 1))
    obj = make(name)
    for i in range(cut):
        call(tr, obj, X[i], labels[i], name)
    cp, how = save(rng, obj, name)
    refuse(tr, cp, name, X, np.array(labels) if meta["k"] > 1 else np.arange(N), "a batch in mid stream, restored by %s" % how)
    refuse(tr, cp, name, np.append(X[0], 1.0), labels[0], "a sample of another dimension, restored by %s" % how)
    # a restored fresh object is as good as new
    if meta["k"] > 1:
        cp, how = save(rng, make(name), name)
        common.expect(tr, call(tr, cp, X, np.array(labels), name), P.at(N), name, "batch on a restored fresh object",
                      **common.witness(X, labels))
    if case % 18 == 4:
        elsewhere(ctx, name, X, labels, straight, P)
    ctx.sign(X, labels, cuts, hows)


def example():
    return common.example_stream()
