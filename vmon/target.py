"""
Loads the code under test from /repo's working tree and records every call
made to it at the client boundary.
"""
import os
import sys
import tempfile

# Never read or write byte code beside the sources: it is trusted by mtime and
# size and could hide an edit.
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vmon-no-such-pycache-%d" % os.getpid())

REPO = os.environ.get("CVI_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import warnings  # noqa: E402

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import cvi  # noqa: E402

assert os.path.realpath(cvi.__file__).startswith(os.path.realpath(REPO) + os.sep), cvi.__file__

NAMES = ("CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB")


class Violation(Exception):
    """The property is refuted by the recorded execution."""

    def __init__(self, message, **witness):
        super().__init__(message)
        self.message = message
        self.witness = witness


class Trace:
    """Counts (and keeps the tail of) the events seen at the boundary."""

    def __init__(self):
        self.events = 0          # calls that returned or raised
        self.inc_calls = 0
        self.batch_calls = 0
        self.rejected = 0
        self.decided = 0         # oracle comparisons that gave a verdict
        self.skipped = 0         # comparisons the oracle could not decide
        self.tags = {}           # free-form counters

    def tag(self, name, by=1):
        self.tags[name] = self.tags.get(name, 0) + by

    def as_dict(self):
        d = {k: v for k, v in self.__dict__.items() if k != "tags"}
        d.update(self.tags)
        return d


def make(name):
    """A fresh object of the named index."""
    try:
        return getattr(cvi, name)()
    except Exception as e:  # noqa: BLE001
        raise Violation("constructing %s() raised %r" % (name, e), index=name)


def call(tr, obj, data, label, name=None):
    """A call that is supposed to be accepted: any exception is a violation."""
    tr.events += 1
    nd = getattr(data, "ndim", None)
    if nd == 1:
        tr.inc_calls += 1
    else:
        tr.batch_calls += 1
    try:
        return obj.get_cvi(data, label)
    except Exception as e:  # noqa: BLE001
        raise Violation(
            "%s.get_cvi raised %s: %s on a valid call" % (name or type(obj).__name__, type(e).__name__, e),
            index=name or type(obj).__name__, data=describe(data), label=describe(label))


def try_call(tr, obj, data, label):
    """A call that may be rejected: returns (value, None) or (None, exception)."""
    tr.events += 1
    try:
        return obj.get_cvi(data, label), None
    except Exception as e:  # noqa: BLE001
        tr.rejected += 1
        return None, e


def batch(tr, name, X, labels):
    return call(tr, make(name), X, labels, name)


def describe(a):
    if isinstance(a, np.ndarray):
        d = {"dtype": str(a.dtype), "shape": list(a.shape)}
        if a.size <= 64:
            d["values"] = a.tolist()
        return d
    return repr(a)
