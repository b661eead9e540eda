"""Simulated output devices: files under a scratch directory and standard output, with scripted faults.

Files are real files in the scratch directory behind a raw device that fails, writes short or kills the
process at chosen writes; the buffers above it are CPython's own, with simulated (small) sizes."""
import builtins
import errno
import io
import os

ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT, "EPIPE": errno.EPIPE,
       "EINTR": errno.EINTR, "EMFILE": errno.EMFILE, "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS}


def error(name, path=None):
    if name == "interrupt":
        return KeyboardInterrupt("injected")
    if name == "memory":
        return MemoryError("injected")
    return OSError(ERR[name], "injected " + name, path)


class Raw(io.FileIO):
    """A file descriptor whose k-th write misbehaves as scripted."""

    def __init__(self, fs, path, mode, opener=None):
        self.fs, self.path = fs, str(path)
        super().__init__(path, mode, opener=opener)
        fs.handles.append(self)

    def write(self, b):
        fs = self.fs
        fs.writes += 1
        f = fs.fault
        b = bytes(b)
        if f and f["at"] == "write" and not fs.fired and fs.writes == f["k"]:
            if f["err"] == "crash":
                super().write(b[:int(len(b) * f["part"])])
                os._exit(77)
            if f["err"] == "EINTR":       # the buffer above retries it
                fs.fired = True
                fs.transparent = True
                raise error("EINTR")
            if f["err"] == "short":
                fs.fired = True
                fs.transparent = True
                return super().write(b[:max(1, int(len(b) * f["part"]))])
            fs.fired = True
            if f["part"] and len(b) > 1:
                super().write(b[:int(len(b) * f["part"])])
            raise error(f["err"])
        if fs.sticky and fs.fired and not fs.transparent:
            raise error(f["err"])
        return super().write(b)

    def close(self):
        fs = self.fs
        was = self.closed
        super().close()
        f = fs.fault
        if not was and f and f["at"] == "close" and not fs.fired and not self.readable():
            fs.fired = True
            raise error(f["err"])

    def readable(self):
        return "r" in self.mode if not self.closed else False


class Out(io.TextIOBase):
    """Standard output: text arrives or the k-th write fails."""

    def __init__(self, fs):
        self.fs = fs
        self.text = []
        self.n = 0

    encoding = "utf-8"

    def writable(self):
        return True

    def write(self, s):
        fs, f = self.fs, self.fs.fault
        self.n += 1
        if f and f["at"] == "print" and (fs.fired if f.get("sticky") else False):
            raise error(f["err"])
        if f and f["at"] == "print" and not fs.fired and self.n == f["k"]:
            if f["err"] == "crash":
                os._exit(77)
            fs.fired = True
            raise error(f["err"])
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def getvalue(self):
        return "".join(self.text)


class FS:
    """Context manager that puts the devices behind open() and sys.stdout while the library runs."""

    def __init__(self, root, fault=None, chunk=8192, buf=8192):
        self.root = os.path.realpath(root)
        self.fault, self.chunk, self.buf = fault, chunk, buf
        self.handles = []
        self.writes = self.opens = 0
        self.fired = self.transparent = False
        self.sticky = bool(fault and fault.get("sticky"))
        self.out = Out(self)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            mine = os.path.realpath(os.fspath(file)).startswith(self.root + os.sep)
        except TypeError:
            mine = False
        if not mine or not set(mode) & set("wxa+"):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        f = self.fault
        if f and f["at"] == "open" and not self.fired and self.opens == f["k"]:
            if f["err"] == "crash":
                os._exit(77)
            self.fired = True
            raise error(f["err"], str(file))
        raw = Raw(self, file, "".join(c for c in mode if c not in "bt"), opener)
        if "+" in mode:
            b = io.BufferedRandom(raw, self.buf)
        else:
            b = raw if buffering == 0 else io.BufferedWriter(raw, self.buf)
        if "b" in mode:
            return b
        t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        t._CHUNK_SIZE = self.chunk
        t.mode = mode
        return t

    def __enter__(self):
        import sys
        self.real = builtins.open
        self.old = sys.stdout
        builtins.open = io.open = self.open
        sys.stdout = self.out
        return self

    def __exit__(self, *a):
        import sys
        builtins.open = io.open = self.real
        sys.stdout = self.old


def gen_fault(rng):
    at = rng.choice(["open", "write", "write", "write", "write", "close", "print", "print"])
    if at == "open":
        return {"at": at, "k": 1, "err": rng.choice(["EACCES", "ENOENT", "ENOSPC", "EMFILE", "EROFS", "memory", "crash"])}
    if at == "close":
        return {"at": at, "err": rng.choice(["EIO", "ENOSPC", "EDQUOT"])}
    if at == "print":
        return {"at": at, "u": round(rng.random(), 6), "err": rng.choice(["EPIPE", "ENOSPC", "EIO", "interrupt", "memory", "crash"]),
                "sticky": rng.random() < 0.5}
    return {"at": at, "u": rng.choice([0.0, round(rng.random(), 6), 0.999999]), "part": rng.choice([0.0, 0.3, 0.7, 0.99]),
            "err": rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EINTR", "short", "short", "interrupt", "memory", "crash", "crash"]),
            "sticky": rng.random() < 0.4}


def resolve(f, counts):
    """The fault with its position among the measured numbers of writes."""
    if f is None or "u" not in f:
        return f
    n = counts["writes" if f["at"] == "write" else "prints"]
    return dict(f, k=1 + min(max(n - 1, 0), int(f["u"] * n)))
