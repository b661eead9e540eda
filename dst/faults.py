"""Fault injection: interruptions and allocation failures at chosen points inside the system under test.

Points are lines of the library reached by a call (how often, which, is measured by a dry run in a forked
copy of the process), or calls from the library into what it depends on."""
import contextlib
import dis
import os
import pickle
import sys

from .boot import G
from .sched import spot

KINDS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "timeout": TimeoutError, "recursion": RecursionError,
         "EPIPE": BrokenPipeError, "ENOSPC": OSError, "EIO": OSError, "float": FloatingPointError, "warning": Warning}


def forked(fn, *a):
    """Runs fn in a forked copy of this process and returns its (pickled) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn(*a))
            except BaseException as e:
                import traceback
                out = (False, traceback.format_exc()[-3000:] + repr(e))
            data = pickle.dumps(out)
            n = 0
            while n < len(data):
                n += os.write(w, data[n:])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    ok, out = pickle.loads(b"".join(buf))
    if not ok:
        raise RuntimeError("in forked process: " + out)
    return out


class _Lines:
    """Counts the lines of the library that run; raises at a chosen one."""

    def __init__(self, target=None, exc=None):
        self.root = G["root"]
        self.count = {}
        self.target, self.exc = target, exc
        self.fired = False
        self.names = {}

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            code = frame.f_code
            key = (code.co_filename[len(self.root):], frame.f_lineno)
            c = self.count[key] = self.count.get(key, 0) + 1
            if self.target is not None and not self.fired and key == self.target[0] and c == self.target[1]:
                self.fired = True
                raise self.exc("injected at %s:%d" % key)
        return self.local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


STAR_CALL = dis.opmap["CALL_FUNCTION_EX"]


class _Calls:
    """Counts calls from the library to anything outside it; fails a chosen one."""

    SKIP = {"__exit__", "__enter__", "get_state", "set_state", "rc_context", "_update_raw", "_get", "_set", "__getattr__",
            "contextmanager", "helper", "close", "exit", "gettrace", "settrace", "setprofile", "getprofile",
            "filterwarnings", "simplefilter", "catch_warnings", "seterr", "geterr", "errstate"}

    def __init__(self, target=None, exc=None):
        self.root = G["root"]
        self.count = {}
        self.target, self.exc = target, exc
        self.fired = False

    def prof(self, frame, event, arg):
        if event == "call":
            back = frame.f_back
            if back is None or not back.f_code.co_filename.startswith(self.root):
                return
            if frame.f_code.co_filename.startswith(self.root) or "contextlib" in frame.f_code.co_filename:
                return
            name, line, where = frame.f_code.co_name, back.f_lineno, back.f_code
        elif event == "c_call":
            if not frame.f_code.co_filename.startswith(self.root):
                return
            if frame.f_code.co_code[frame.f_lasti] == STAR_CALL:
                return      # (failing here makes CPython 3.12 release the unpacked list twice)
            name, line, where = getattr(arg, "__name__", "?"), frame.f_lineno, frame.f_code
        else:
            return
        if name in self.SKIP:
            return
        key = (where.co_filename[len(self.root):], line, name)
        c = self.count[key] = self.count.get(key, 0) + 1
        if self.target is not None and not self.fired and key == self.target[0] and c == self.target[1]:
            self.fired = True
            sys.setprofile(None)
            raise self.exc("injected in %s called at %s:%d" % (name, key[0], line))

    def __enter__(self):
        sys.setprofile(self.prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


class _Out:
    """Standard output whose k-th write fails."""

    def __init__(self, target=None, exc=None):
        self.target, self.exc = target, exc
        self.count = {}
        self.fired = False

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self
        return self

    def __exit__(self, *a):
        sys.stdout = self.old

    encoding = "utf-8"

    def write(self, t):
        key = ("write", len(self.count))
        self.count[key] = 1
        if self.target is not None and not self.fired and key == self.target[0]:
            self.fired = True
            raise self.exc
        return self.old.write(t)

    def flush(self):
        pass

    def isatty(self):
        return False


class _Strict:
    """The process turns floating point events or warnings into errors, for the time of the call."""

    def __init__(self, kind=None):
        self.kind = kind
        self.count = {}
        self.fired = False

    def __enter__(self):
        import warnings
        import numpy as np
        if self.kind == "float":
            self.cm = np.errstate(all="raise")
            self.cm.__enter__()
        elif self.kind == "warning":
            self.cm = warnings.catch_warnings()
            self.cm.__enter__()
            warnings.simplefilter("error")
        return self

    def __exit__(self, t, e, tb):
        if self.kind:
            self.cm.__exit__(t, e, tb)
            self.fired = e is not None and isinstance(e, KINDS[self.kind])


def recorder(mode):
    return {"line": _Lines, "call": _Calls, "out": _Out, "strict": _Strict}[mode]()


def outerror(kind):
    import errno
    if kind in KINDS and kind not in ("EPIPE", "ENOSPC", "EIO"):
        return KINDS[kind]("injected in a write to standard output")
    return OSError(getattr(errno, kind), "injected in a write to standard output")


def injector(mode, counts, f):
    """Context manager that fails at the point fault f names among the measured counts.

    f = {"kind": interrupt|memory, "loc": u, "occ": v}: the u-quantile of the distinct points (or functions), its v-quantile occurrence."""
    if mode == "strict":
        return _Strict(f["kind"])
    keys = sorted(counts)
    if not keys:
        return recorder(mode)
    key = spot(keys, f["loc"], f.get("by"))
    occ = 1 + min(counts[key] - 1, int(f["occ"] * counts[key]))
    if mode == "out":
        return _Out((key, occ), outerror(f["kind"]))
    return (_Lines if mode == "line" else _Calls)((key, occ), KINDS[f["kind"]])


def gen_fault(rng, mode="line"):
    kinds = {"line": ["interrupt", "interrupt", "memory", "timeout", "recursion"], "call": ["interrupt", "memory"],
             "out": ["EPIPE", "ENOSPC", "EIO", "interrupt", "memory"], "strict": ["float", "warning"]}[mode]
    return {"kind": rng.choice(kinds), "loc": round(rng.random(), 6),
            "occ": rng.choice([0.0, round(rng.random(), 6), 0.999999]),
            "by": rng.choice(["line", "function"]) if mode in ("line", "call") else "line"}


def shrink_fault(f):
    if f["occ"] != 0.0:
        yield dict(f, occ=0.0)
    if f["kind"] in ("memory", "timeout", "recursion"):
        yield dict(f, kind="interrupt")


@contextlib.contextmanager
def nothing():
    yield None
