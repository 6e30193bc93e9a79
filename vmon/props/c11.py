"""Rejected calls: raised as ValueError, no effect, object still usable."""
import numpy as np

from .. import gen
from ..target import NAMES, Violation, call, make, try_call
from . import common

CASES = {"quick": 5000, "thorough": 60000}
CHUNK = 6
RULE = ("A case is a random sequence of valid and invalid calls on one object, judged online by a three-state model "
        "(fresh, incremental, batch): an invalid call must raise ValueError and leave criterion_value alone, a valid one "
        "must return what a twin object that never saw the invalid calls returns (and the definition). Distinct by SHA-1 "
        "of the call sequence; non-trivial if it contains a rejection followed by a judged value.")
ASSUMPTIONS = ["steps on which the index is undefined or ill conditioned give no verdict on values"]
INVALID = ("ndim0", "ndim3", "ndim4", "onelabel", "emptybatch", "longlabels", "shortlabels", "scalarlabel",
           "dim_short", "dim_long", "dim_one", "dim_zero", "batch_after", "onelabel_after", "sample_after_batch",
           "newdim_after_batch", "ndim3_thin", "ndim5", "single", "doublelabels", "halflabels", "labelpair")
REQUIRED = dict([("rej_" + k, 30) for k in INVALID] + [("value_after_rejection_" + n, 100) for n in NAMES] +
                [("batch_after_rejection", 100), ("finished_" + "inc", 100)])


def invalid_call(rng, state, d, labels_seen):
    """(kind, data, label) invalid in `state`."""
    kinds = ["ndim0", "ndim3", "ndim4", "ndim3_thin", "ndim5"]
    if state == "fresh":
        kinds += ["onelabel", "emptybatch", "longlabels", "shortlabels", "scalarlabel", "single", "doublelabels",
                  "halflabels", "labelpair"] * 2
    elif state == "inc":
        kinds += ["dim_short", "dim_long", "dim_one", "dim_zero"] * 2 + ["batch_after", "onelabel_after"]
    else:
        kinds += ["sample_after_batch"] * 4 + ["newdim_after_batch", "batch_after", "onelabel_after"]
    kind = str(rng.choice(kinds))
    n = int(rng.integers(2, 9))
    lab = int(rng.choice(labels_seen)) if labels_seen and rng.random() < 0.6 else int(rng.integers(50, 60))
    two = np.array([0, 1] + list(rng.integers(0, 3, n - 2)))
    if kind == "ndim0":
        return kind, np.array(float(rng.normal())), lab
    if kind == "ndim3":
        return kind, rng.normal(size=(n, d, 2)), (two if rng.random() < 0.5 else lab)
    if kind == "ndim4":
        return kind, rng.normal(size=(n, d, 1, 1)), two
    if kind == "ndim3_thin":          # would be acceptable without its axes of length one
        shape = [(1, n, d), (n, 1, d), (n, d, 1), (1, 1, d), (1, d, 1), (d, 1, 1)][int(rng.integers(0, 6))]
        return kind, rng.normal(size=shape), (two if rng.random() < 0.7 else lab)
    if kind == "ndim5":
        return kind, rng.normal(size=(1, 1, 1, n, d)), two
    if kind == "single":              # one sample, as a batch
        return kind, rng.normal(size=(1, d)), (np.array([lab]) if rng.random() < 0.5 else lab)
    if kind == "doublelabels":
        return kind, rng.normal(size=(n, d)), np.concatenate([two, two])
    if kind == "halflabels":
        return kind, rng.normal(size=(2 * n, d)), two
    if kind == "labelpair":           # two labels for one sample, or for many
        return kind, rng.normal(size=(int(rng.choice([1, 1, 3, 5])), d)), np.array([lab, lab + 1])
    if kind in ("onelabel", "onelabel_after"):
        return kind, rng.normal(size=(n, d)), np.full(n, lab)
    if kind == "emptybatch":
        return kind, np.zeros((0, d)), np.zeros(0, dtype=int)
    if kind == "scalarlabel":
        return kind, rng.normal(size=(n, d)), lab
    if kind == "longlabels":
        return kind, rng.normal(size=(n, d)), np.concatenate([two, rng.integers(0, 3, int(rng.integers(1, 4)))])
    if kind == "shortlabels":
        return kind, rng.normal(size=(n + 1 + int(rng.integers(0, 3)), d)), two
    if kind == "dim_short":
        if d < 2:
            return "dim_long", rng.normal(size=d + 1), lab
        return kind, rng.normal(size=d - 1), lab
    if kind == "dim_long":
        return kind, rng.normal(size=d + int(rng.integers(1, 4))), lab
    if kind == "dim_one":
        return ("dim_one", rng.normal(size=1), lab) if d > 1 else ("dim_long", rng.normal(size=2), lab)
    if kind == "dim_zero":
        return kind, np.zeros(0), lab
    if kind == "batch_after":
        return kind, rng.normal(size=(n, d)), two
    if kind == "sample_after_batch":
        return kind, rng.normal(size=d), lab
    if kind == "newdim_after_batch":
        return kind, rng.normal(size=d + 1), lab
    raise KeyError(kind)


def run_case(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    name = NAMES[case % len(NAMES)]
    size = gen.RARE[case // 20 % len(gen.RARE)] if case % 20 == 5 else str(rng.choice(["tiny", "small", "medium"], p=[.45, .45, .1]))
    X, labels, meta = gen.stream_for(rng, name, size=size, scale=1.0, offset=0.0)
    d = X.shape[1]
    mode = "batch" if rng.random() < 0.35 and meta["k"] > 1 else "inc"
    meta["kind"] = mode + "/" + name
    ctx.meta = meta
    p_bad = float(rng.choice([0.2, 0.5, 0.8])) if len(labels) < 150 else 0.02
    obj, twin = make(name), make(name)
    state, pos = "fresh", 0
    log = []
    P = common.Prefixes(X, labels, (name,))
    pts = set(gen.checkpoints(rng, labels, 20))
    rejected_before = False
    after_end = 3
    first_bad = bool(rng.random() < 0.6)
    while True:
        done = (mode == "inc" and pos == len(labels)) or (mode == "batch" and state == "batch")
        if done:
            after_end -= 1
            if after_end < 0:
                break
        if done or (first_bad and not log) or rng.random() < p_bad:
            kind, data, lab = invalid_call(rng, state, d, labels[:pos])
            before = obj.criterion_value
            _, exc = try_call(tr, obj, data, lab)
            log.append(kind)
            tr.decided += 1
            if exc is None:
                raise Violation("%s accepted an unsupported call (%s, state %s)" % (name, kind, state),
                                index=name, kind=kind, calls=log, shape=list(data.shape))
            if not isinstance(exc, ValueError):
                raise Violation("%s raised %s instead of ValueError for %s (state %s): %s"
                                % (name, type(exc).__name__, kind, state, exc), index=name, kind=kind, calls=log)
            after = obj.criterion_value
            if not (after == before or (after != after and before != before)):
                raise Violation("%s: rejected call %s changed criterion_value from %r to %r" % (name, kind, before, after),
                                index=name, calls=log)
            tr.tag("rej_" + kind)
            rejected_before = True
            continue
        if mode == "inc":
            v = call(tr, obj, X[pos], labels[pos], name)
            t = call(tr, twin, X[pos], labels[pos], name)
            pos += 1
            state = "inc"
            log.append("sample")
            p = pos
        else:
            v = call(tr, obj, X, np.array(labels), name)
            t = call(tr, twin, X, np.array(labels), name)
            state = "batch"
            log.append("batch")
            p = len(labels)
        same = v == t or (v != v and t != t)
        if not same and len(set(labels[:p])) > 1:
            common.expect_same(tr, v, t, P.at(p), name, "after rejected calls %s" % log, **common.witness(X, labels, p))
        if p in pts:
            common.expect(tr, v, P.at(p), name, "after calls %s" % log, **common.witness(X, labels, p))
            if rejected_before and name in P.at(p):
                tr.tag("value_after_rejection_" + name)
                if mode == "batch":
                    tr.tag("batch_after_rejection")
    tr.tag("finished_" + mode)
    ctx.sign(X, log)


def example():
    return dict(example_calls=["onelabel", "ndim3", "sample", "dim_one", "sample", "batch_after", "sample"])
