"""Reproducibility and absence of ambient effects."""
import gc
import io
import json
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import gen
from ..target import NAMES, REPO, Violation, call, make, try_call
from . import common

CASES = {"quick": 220, "thorough": 2400}
CHUNK = 2
RULE = ("Two kinds of case. 'ambient': every get_cvi call of a stream and a batch (and refused calls and calls on degenerate data in between) runs between two snapshots of the "
        "generators' states, NumPy error settings, warning filters, print options, environment, working directory, "
        "threads, child processes, Python- and file-descriptor-level stdout/stderr and a scratch directory tree (cwd, "
        "HOME, TMPDIR), with an audit hook recording files opened for writing; error settings and filters are "
        "randomised first, and the same calls are repeated after reseeding and unrelated computations. 'replay': the "
        "recorded calls are replayed in fresh processes with other hash seeds, interpreter options (-O, -OO), clocks, environments, generator "
        "states, orders and threads, and the package is imported between two snapshots. "
        "Distinct by SHA-1 of the streams.")
ASSUMPTIONS = ["values are compared within round-off, not bit for bit"]
REQUIRED = dict([("ambient_" + n, 200) for n in NAMES] + [("replayed_" + n, 100) for n in NAMES] +
                [("repeated", 500), ("refused", 2000), ("degenerate", 200), ("subprocesses", 30), ("imports", 10)])

_audit = {"on": False, "log": []}


def _hook(event, args):
    if not _audit["on"]:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None,) * 3)[:3]
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if w:
            _audit["log"].append(("open", str(path)))
    elif event in ("os.mkdir", "os.rename", "os.symlink", "os.link"):
        _audit["log"].append((event, str(args[0])))


_installed = []


def ensure_hook():
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def children():
    try:
        return open("/proc/self/task/%d/children" % os.getpid()).read().split()
    except OSError:
        return []


class Snapshot:
    def __init__(self):
        self.np_rng = np.random.get_state()
        self.py_rng = random.getstate()
        self.err = np.geterr()
        self.errcall = np.geterrcall()
        self.filters = list(warnings.filters)
        self.showwarning = warnings.showwarning
        self.printopts = np.get_printoptions()
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.threads = set(threading.enumerate())
        self.streams = (sys.stdout, sys.stderr)
        self.recursion = sys.getrecursionlimit()
        self.settings = (gc.isenabled(), gc.get_threshold(), sys.getswitchinterval(), np.getbufsize(),
                         logging.root.level, len(logging.root.handlers), sys.path[:], sys.excepthook,
                         len(os.listdir("/proc/self/fd")))

    def compare(self, other):
        bad = []
        if not same_state(self.np_rng, other.np_rng):
            bad.append("NumPy's global random generator was used or reseeded")
        if self.py_rng != other.py_rng:
            bad.append("Python's random generator was used or reseeded")
        if self.err != other.err or self.errcall is not other.errcall:
            bad.append("NumPy error settings changed from %r to %r" % (self.err, other.err))
        if self.filters != other.filters:
            bad.append("warning filters changed")
        if self.showwarning is not other.showwarning:
            bad.append("warnings.showwarning replaced")
        if repr(self.printopts) != repr(other.printopts):
            bad.append("NumPy print options changed")
        if self.env != other.env:
            bad.append("environment variables changed")
        if self.cwd != other.cwd:
            bad.append("working directory changed")
        if other.threads - self.threads:
            bad.append("threads left behind: %r" % (other.threads - self.threads))
        if self.streams != other.streams:
            bad.append("sys.stdout or sys.stderr replaced")
        if self.recursion != other.recursion:
            bad.append("recursion limit changed")
        if self.settings != other.settings:
            bad.append("process settings changed from %r to %r" % (self.settings, other.settings))
        return bad


def files_under(root):
    out = set()
    for base, dirs, names in os.walk(root):
        out.update(os.path.join(base, x) for x in dirs + names)
    return out


def ambient(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    ensure_hook()
    root = tempfile.mkdtemp(prefix="vmon-c14-")
    for sub in ("cwd", "home", "tmp"):
        os.mkdir(os.path.join(root, sub))
    keep_cwd, keep_env = os.getcwd(), dict(os.environ)
    keep_tmp = tempfile.tempdir
    keep_streams = sys.stdout, sys.stderr
    keep_filters = list(warnings.filters)
    keep_show = warnings.showwarning
    keep_err = np.geterr()
    keep_np, keep_py = np.random.get_state(), random.getstate()
    fds = os.dup(1), os.dup(2)
    outp = os.path.join(root, "fd1"), os.path.join(root, "fd2")
    try:
        os.chdir(os.path.join(root, "cwd"))
        os.environ["HOME"] = os.path.join(root, "home")
        os.environ["TMPDIR"] = os.path.join(root, "tmp")
        tempfile.tempdir = None
        keep_streams[0].flush()
        keep_streams[1].flush()
        for n, p in zip((1, 2), outp):
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, n)
            os.close(fd)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        warnings.resetwarnings()
        warnings.simplefilter(str(rng.choice(["always", "default", "once"])))
        if rng.random() < 0.5:
            warnings.filterwarnings("ignore", message="unlikely %d" % case)
        warned = []
        warnings.showwarning = lambda *a, **k: warned.append(a[0])
        np.seterr(**{k: str(rng.choice(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")})
        np.random.seed(int(rng.integers(2 ** 31)))
        random.seed(int(rng.integers(2 ** 31)))

        X, labels, meta = gen.stream(rng, size=gen.rare(case, 23) or str(rng.choice(["tiny", "small", "medium", "many"], p=[.35, .45, .17, .03])))
        meta["kind"] = "ambient"
        ctx.meta = meta
        ctx.sign(X, labels)
        P = common.Prefixes(X, labels, common.usable(NAMES, X))
        pts = gen.checkpoints(rng, labels, 10)
        ptset = set(pts)
        baseline = files_under(root)
        kids = children()
        first = {}

        def watched(name, obj, data, lab, may_raise=False):
            s0 = Snapshot()
            _audit["log"].clear()
            _audit["on"] = True
            try:
                v = try_call(tr, obj, data, lab) if may_raise else call(tr, obj, data, lab, name)
            finally:
                _audit["on"] = False
            bad = s0.compare(Snapshot())
            for ev, path in _audit["log"]:
                if os.path.exists(path) and not path.startswith(("/dev/", "/proc/")):
                    bad.append("left the file %s behind" % path)
            tr.decided += 1
            tr.tag("ambient_" + name)
            if bad:
                raise Violation("%s.get_cvi: %s" % (name, "; ".join(bad)), index=name)
            return v

        def oddities(name, obj, fresh, mid):
            """Calls that are refused, and calls on degenerate data."""
            d = X.shape[1]
            n = int(rng.integers(2, 7))
            two = np.arange(n) % 2
            bad = [(np.zeros((n, d, 2)), two), (np.array(1.0), 0)]
            if fresh:
                bad += [(rng.normal(size=(n, d)), np.zeros(n, int)), (rng.normal(size=(n, d)), np.arange(n + 1)),
                        (np.zeros((0, d)), np.zeros(0, int)), (rng.normal(size=(n, d)), 3)]
            elif mid:
                bad += [(rng.normal(size=d + 1), 0), (rng.normal(size=(n, d)), two), (np.zeros(0), 0)]
            else:
                bad += [(rng.normal(size=d), 0), (rng.normal(size=(n, d)), two)]
            for j in rng.permutation(len(bad))[:3]:
                watched(name, obj, *bad[j], may_raise=True)
                tr.tag("refused")
            same = np.full((n, d), float(rng.choice([0.0, 1.0, -2.5])))
            if fresh and rng.random() < 0.5:
                o2 = make(name)
                for j in range(n):
                    watched(name, o2, same[j], int(two[j]))
                watched(name, make(name), same, two)
                if n > 2:
                    watched(name, make(name), same, np.arange(n))
                tr.tag("degenerate")

        for rnd in range(2):
            for name in P.names:
                s0 = Snapshot()
                obj = make(name)
                bad = s0.compare(Snapshot())
                if bad:
                    raise Violation("%s(): %s" % (name, "; ".join(bad)), index=name)
                oddities(name, obj, True, False)
                at = set(int(a) for a in rng.integers(0, len(labels), 2))
                vals = []
                for i in range(len(labels)):
                    vals.append(watched(name, obj, X[i], labels[i]))
                    if i in at:
                        oddities(name, obj, False, True)
                obj = make(name)
                b = watched(name, obj, X, np.array(labels)) if meta["k"] > 1 else 0.0
                if meta["k"] > 1:
                    oddities(name, obj, False, False)
                if rnd == 0:
                    first[name] = (vals, b)
                    continue
                for p in pts:
                    common.expect_same(tr, first[name][0][p - 1], vals[p - 1], P.at(p), name,
                                       "the same stream repeated in one process", factor=0.1,
                                       **common.witness(X, labels, p))
                    tr.tag("repeated")
                if pts:
                    common.expect_same(tr, first[name][1], b, P.at(len(labels)), name,
                                       "the same batch repeated in one process", factor=0.1, **common.witness(X, labels))
            # in between: reseed and compute something else
            np.random.seed(int(rng.integers(2 ** 31)))
            random.seed(int(rng.integers(2 ** 31)))
            np.seterr(**{k: str(rng.choice(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")})
            Y, l2, _ = gen.stream(rng, size="tiny")
            for name in common.usable(NAMES, Y):
                common.inc_values(tr, name, Y, l2)
        if case % 8 == 2:              # batches large enough to tempt an implementation into files or threads
            Xb, ids, mb = gen.bulk(rng, str(rng.choice(gen.BULK)), few=True)
            for name in [NAMES[(case // 8 * 3 + j) % 9] for j in range(3)]:
                if name != "rCIP" or gen.rcip_safe(Xb):
                    watched(name, make(name), Xb, ids)
                    tr.tag("bulk")
        left = files_under(root) - baseline
        if left:
            raise Violation("get_cvi left files behind: %s" % sorted(left)[:5])
        if children() != kids:
            raise Violation("get_cvi left child processes behind")
        said = sys.stdout.getvalue(), sys.stderr.getvalue()
        sizes = [os.path.getsize(p) for p in outp]
        tr.decided += 1
        if any(said) or any(sizes):
            raise Violation("get_cvi wrote to stdout or stderr: %r %r" % (said, [open(p).read(200) for p in outp]))
    finally:
        _audit["on"] = False
        sys.stdout, sys.stderr = keep_streams
        os.dup2(fds[0], 1)
        os.dup2(fds[1], 2)
        os.close(fds[0])
        os.close(fds[1])
        os.chdir(keep_cwd)
        os.environ.clear()
        os.environ.update(keep_env)
        tempfile.tempdir = keep_tmp
        warnings.filters[:] = keep_filters
        warnings._filters_mutated() if hasattr(warnings, "_filters_mutated") else None
        warnings.showwarning = keep_show
        np.seterr(**keep_err)
        np.random.set_state(keep_np)
        random.setstate(keep_py)
        shutil.rmtree(root, ignore_errors=True)


IMPORT = r"""
import gc, logging, os, random, sys, threading, typing, abc, warnings
import numpy as np
import numpy.linalg
sys.path.insert(0, sys.argv[1])
warnings.filterwarnings("ignore", message="unlikely")
np.seterr(divide=sys.argv[2], invalid=sys.argv[3])
def snap():
    return dict(numpy_rng=[repr(v) for v in np.random.get_state()], python_rng=random.getstate(), errors=np.geterr(),
                errcall=np.geterrcall(), filters=list(warnings.filters), show=warnings.showwarning,
                printoptions=repr(np.get_printoptions()), environ=dict(os.environ), cwd=os.getcwd(),
                threads=threading.active_count(), streams=(sys.stdout, sys.stderr), recursion=sys.getrecursionlimit(),
                gc=(gc.isenabled(), gc.get_threshold()), switch=sys.getswitchinterval(), buf=np.getbufsize(),
                log=(logging.root.level, len(logging.root.handlers)), path=sys.path[:], hook=sys.excepthook)
a = snap()
import cvi
import cvi.compat.v0
b = snap()
diff = [k for k in a if a[k] != b[k]]
if diff:
    sys.stderr.write("IMPORT changed " + ", ".join(diff))
    sys.exit(3)
"""


def importing(ctx):
    """Import the package in a fresh interpreter and compare process-wide settings around it."""
    rng, tr = ctx.rng, ctx.tr
    root = tempfile.mkdtemp(prefix="vmon-c14-")
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2 ** 32))), PYTHONDONTWRITEBYTECODE="1", HOME=root,
                   TMPDIR=root)
        opt = str(rng.choice(OPTIONS))
        args = ([opt] if opt else []) + ["-c", IMPORT, os.path.join(REPO, "src"), str(rng.choice(["warn", "ignore", "raise"])),
                                        str(rng.choice(["warn", "ignore", "raise"]))]
        r = subprocess.run([sys.executable] + args, env=env, cwd=root, capture_output=True, text=True, timeout=200)
        tr.tag("imports")
        tr.decided += 1
        if r.returncode == 3:
            raise Violation("importing the package changed process-wide settings: %s" % r.stderr[-300:])
        if r.returncode:
            raise Violation("importing the package fails (%s): %s" % (opt or "no option", r.stderr[-800:]))
        if r.stdout or r.stderr:
            raise Violation("importing the package writes to stdout or stderr: %r" % (r.stdout + r.stderr)[:300])
        if os.listdir(root):
            raise Violation("importing the package leaves files behind: %r" % os.listdir(root))
    finally:
        shutil.rmtree(root, ignore_errors=True)


OPTIONS = ("", "-O", "-OO", "-B", "-s")

CHILD = r"""
import json, sys, random, threading
sys.path.insert(0, sys.argv[1])
job = json.load(open(sys.argv[2]))
import os, time
if job["clock"]:                 # another date, another machine
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(time, n, (lambda f: lambda: f() + job["clock"])(getattr(time, n)))
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(time, n, (lambda f: lambda: f() + int(job["clock"] * 1e9))(getattr(time, n)))
    os.cpu_count = lambda: job["cpus"]
    sys.argv[0] = "other-program"
from vmon import target
import numpy as np
np.random.seed(job["np_seed"]); random.seed(job["py_seed"])
out = {}
def work(n):
    s = job["streams"][n]
    X = np.array([[float.fromhex(v) for v in row] for row in s["X"]])
    for name in s["names"]:
        o = target.make(name)
        vals = [o.get_cvi(X[i], s["labels"][i]) for i in range(len(X))]
        b = target.make(name).get_cvi(X, np.array(s["labels"]))
        out["%d/%s" % (n, name)] = [[float(v).hex() for v in vals], float(b).hex()]
for n in job["order"]:
    if job["threaded"]:
        t = threading.Thread(target=work, args=(n,)); t.start(); t.join()
    else:
        work(n)
json.dump(out, open(sys.argv[3], "w"))
"""


def replay(ctx, case):
    rng, tr = ctx.rng, ctx.tr
    streams, oracles, expect = [], [], []
    for _ in range(6):
        while True:
            X, labels, meta = gen.stream(rng, size=str(rng.choice(["tiny", "small", "medium"])))
            if meta["k"] > 1:
                break
        names = common.usable(NAMES, X)
        P = common.Prefixes(X, labels, names)
        pts = gen.checkpoints(rng, labels, 8)
        streams.append((X, labels, names, pts, P))
        expect.append({n: (common.inc_values(tr, n, X, labels), call(tr, make(n), X, np.array(labels), n)) for n in names})
    importing(ctx)
    meta["kind"] = "replay"
    ctx.meta = meta
    ctx.sign(*[s[0] for s in streams])
    root = tempfile.mkdtemp(prefix="vmon-c14-")
    try:
        for run in range(3):
            job = dict(np_seed=int(rng.integers(2 ** 31)), py_seed=int(rng.integers(2 ** 31)), threaded=run == 2,
                       clock=float(rng.choice([0.0, 3.2e8, 1e9, -7e8])), cpus=int(rng.choice([1, 2, 64, 256])),
                       order=[int(i) for i in rng.permutation(len(streams))],
                       streams=[dict(X=[[float(v).hex() for v in row] for row in X], labels=labels, names=list(names))
                                for X, labels, names, _, _ in streams])
            jp, op = os.path.join(root, "job.json"), os.path.join(root, "out%d.json" % run)
            json.dump(job, open(jp, "w"))
            env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2 ** 32))), CVI_REPO=REPO)
            here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            opt = str(rng.choice(OPTIONS))
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            for n, v in (("DEBUG", "1"), ("CI", "true"), ("TZ", "Asia/Tokyo"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"),
                         ("OMP_NUM_THREADS", "3"), ("CVI_DEBUG", "1"), ("VERBOSE", "1"), ("PYTHONUTF8", "0"), ("USER", "nobody")):
                if rng.random() < 0.4:
                    env[n] = v
            r = subprocess.run([sys.executable] + ([opt] if opt else []) + ["-c", CHILD, here, jp, op],
                               env=env, cwd=root, capture_output=True,
                               text=True, timeout=200)
            tr.tag("subprocesses")
            if r.returncode or not os.path.exists(op):
                raise Violation("calls that succeeded here fail in a fresh process (option %r): %s" % (opt, r.stderr[-800:]))
            if r.stdout or "warning" not in r.stderr.lower() and r.stderr.strip():
                raise Violation("get_cvi wrote to stdout or stderr in a fresh process: %r" % (r.stdout + r.stderr)[:300])
            got = json.load(open(op))
            for n, (X, labels, names, pts, P) in enumerate(streams):
                for name in names:
                    vals, b = got["%d/%s" % (n, name)]
                    ev, eb = expect[n][name]
                    for p in pts:
                        common.expect_same(tr, ev[p - 1], float.fromhex(vals[p - 1]), P.at(p), name,
                                           "the same stream in another process (PYTHONHASHSEED=%s)" % env["PYTHONHASHSEED"],
                                           factor=0.1, **common.witness(X, labels, p))
                        tr.tag("replayed_" + name)
                    common.expect_same(tr, eb, float.fromhex(b), P.at(len(labels)), name,
                                       "the same batch in another process", factor=0.1, **common.witness(X, labels))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_case(ctx, case):
    if case % 6 == 5:
        replay(ctx, case)
    else:
        ambient(ctx, case)


def example():
    return common.example_stream()
