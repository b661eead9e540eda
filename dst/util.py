import contextlib
import io
import warnings

import numpy as np

from .core import Violation
from .observe import canon, diff


def need(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg)


def same(a, b, kind, what, rtol=1e-9):
    d = diff(canon(a), canon(b), what, rtol=rtol, kinds=False)
    if d:
        raise Violation(kind, d + "  (reported != expected)")


def exact(a, b, kind, what):
    d = diff(canon(a), canon(b), what, rtol=1e-12, atol=0.0, kinds=False)
    if d:
        raise Violation(kind, d + "  (reported != expected)")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def sut(what, fn, *a, **k):
    """Calls the system under test; any exception is a violation of the property that called it."""
    try:
        with quiet():
            return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation("exception", "%s raised %s: %s" % (what, type(e).__name__, e))


def draws(rs, scheme, n):
    """Endless random permutations of range(n), by one of the ways to draw them from numpy's global stream."""
    ids = np.arange(n)
    while True:
        if scheme == "fresh":
            yield rs.permutation(n)
        elif scheme == "running":
            rs.shuffle(ids)
            yield ids.copy()
        else:
            yield np.argsort(rs.random_sample(n))


def any_scheme(order, fn):
    """fn(scheme) must hold for one way of drawing permutations; the one in use today is tried first."""
    first = None
    for scheme in order:
        try:
            return fn(scheme)
        except Violation as e:
            first = first or e
    raise first


FRESH, RUNNING = ("fresh", "running", "rank"), ("running", "fresh", "rank")


def drop_each(lst, low=1):
    """Smaller versions of a list: halves first, then single elements dropped."""
    n = len(lst)
    if n > low:
        half = n // 2
        if half >= low:
            yield lst[:half]
            yield lst[half:]
        for i in range(n - 1, -1, -1):
            yield lst[:i] + lst[i + 1:]


def smaller_ints(v, low=0):
    for c in (low, low + 1, v // 2, v - 1):
        if low <= c < v:
            yield c
