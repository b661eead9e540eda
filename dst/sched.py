"""The thread scheduler of the simulator.

Real threads, of which exactly one holds the baton.  Every line (or bytecode) of the library that is about to run
is a point at which the policy may hand the baton to another thread.  Each thread has its own state of numpy's
global random stream.  Locks created by the library are the simulator's (see lock_seam), so a thread that has to
wait gives the baton away, and a deadlock is seen as one."""
import _thread
import ast
import contextlib
import os
import random
import sys
import threading

import numpy as np

from .boot import G

_real_lock, _real_rlock = threading.Lock, threading.RLock


class _Sem:
    """A binary semaphore made of one real lock: threading.Semaphore would take its lock through the seam below."""

    def __init__(self, value=0):
        self.lock = _thread.allocate_lock()
        if not value:
            self.lock.acquire()

    def acquire(self):
        self.lock.acquire()

    def release(self):
        self.lock.release()


ACTIVE = None         # the scheduler that is running, if any


class Deadlock(Exception):
    pass


class SimLock:
    """threading.Lock / RLock under the simulator's control."""

    def __init__(self, re=False):
        self.re, self.owner, self.depth = re, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = ACTIVE
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking:
                return False
            if s is None or not s.mine():
                raise Deadlock("lock taken twice by one thread")
            if timeout is not None and timeout >= 0:
                s.pause()
                if self.owner is not None:
                    return False
                break
            s.block(self)
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth <= 0:
            self.owner, self.depth = None, 0
            if ACTIVE is not None:
                ACTIVE.unblock(self)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle '_thread.lock' object")


@contextlib.contextmanager
def lock_seam():
    """Locks created inside are the simulator's."""
    old = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = (lambda: SimLock()), (lambda: SimLock(True))
    try:
        yield
    finally:
        threading.Lock, threading.RLock = old


class _T:
    def __init__(self, idx, fn, rng):
        self.idx, self.fn, self.rng = idx, fn, rng
        self.sem = _Sem(0)
        self.state = "ready"
        self.waits = None
        self.result = self.exc = None
        self.ident = None
        self.hits = {}


class Sched:
    def __init__(self, policy, root, gran="line", limit=400000):
        self.policy, self.root, self.gran, self.limit = policy, root, gran, limit
        self.ts, self.cur, self.step = [], None, 0
        self.end = _Sem(0)
        self.failure = self.left = None
        self.switches = []        # [step, thread] taken
        self.trail = []           # what interleaved with what

    def add(self, fn, rng=None):
        self.ts.append(_T(len(self.ts), fn, rng))

    def mine(self):
        return self.cur is not None and self.cur.ident == threading.get_ident()

    # ---- called by the running thread
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        if self.gran == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.point((frame.f_code.co_filename[len(self.root):], frame.f_lineno))
        return self._local

    def point(self, loc):
        self.step += 1
        if self.step > self.limit:
            self.fail("no end after %d steps" % self.limit)
        ready = [t for t in self.ts if t.state == "ready"]
        if len(ready) < 2:
            return
        nxt = self.policy.choose(self.step, self.cur, ready, loc)
        if nxt is not None and nxt is not self.cur:
            self.switches.append([self.step, nxt.idx])
            self.trail.append((self.cur.idx, loc, nxt.idx))
            self.to(nxt)

    def to(self, nxt):
        me = self.cur
        if me.rng is not None:
            me.rng = np.random.get_state()
        self.cur = nxt
        if nxt.rng is not None:
            np.random.set_state(nxt.rng)
        nxt.sem.release()
        me.sem.acquire()

    def pause(self):
        ready = [t for t in self.ts if t.state == "ready" and t is not self.cur]
        if ready:
            self.to(ready[0])

    def block(self, lock):
        me = self.cur
        me.state, me.waits = "blocked", lock
        ready = [t for t in self.ts if t.state == "ready"]
        if not ready:
            self.fail("deadlock: every thread waits for a lock")
        nxt = self.policy.forced(ready)
        self.trail.append((me.idx, "lock", nxt.idx))
        self.to(nxt)

    def unblock(self, lock):
        for t in self.ts:
            if t.waits is lock:
                t.state, t.waits = "ready", None

    def fail(self, msg):
        self.failure = msg
        self.end.release()
        _Sem(0).acquire()       # this thread stops here; the process is thrown away after the run

    def _body(self, t):
        t.ident = threading.get_ident()
        t.sem.acquire()
        sys.settrace(self._trace)
        try:
            t.result = t.fn()
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
        t.state = "done"
        ready = [x for x in self.ts if x.state == "ready"]
        if ready:
            nxt = self.policy.forced(ready)
            self.cur = nxt
            if nxt.rng is not None:
                np.random.set_state(nxt.rng)
            nxt.sem.release()
        elif any(x.state == "blocked" for x in self.ts):
            self.failure = "deadlock: the remaining threads wait for locks that nobody will release"
            self.end.release()
        else:
            self.end.release()

    def run(self):
        global ACTIVE
        for t in self.ts:
            _thread.start_new_thread(self._body, (t,))
        ACTIVE = self
        try:
            first = self.policy.forced(list(self.ts))
            self.cur = first
            if first.rng is not None:
                np.random.set_state(first.rng)
            first.sem.release()
            self.end.acquire()
        finally:
            ACTIVE = None


# ------------------------------------------------------------------ policies
class Random:
    """Switch with probability p at every point."""

    def __init__(self, seed, p):
        self.r, self.p = random.Random(seed), p

    def forced(self, ready):
        return self.r.choice(ready)

    def choose(self, step, cur, ready, loc):
        if self.r.random() < self.p:
            return self.r.choice([t for t in ready if t is not cur])
        return None


class Priority:
    """The ready thread with the highest priority runs; priorities drop at a few random steps."""

    def __init__(self, seed, steps, depth):
        self.r = random.Random(seed)
        self.prio = {}
        self.change = sorted(self.r.randrange(1, max(2, steps)) for _ in range(depth))
        self.low = 0

    def _p(self, t):
        if t.idx not in self.prio:
            self.prio[t.idx] = self.r.random()
        return self.prio[t.idx]

    def forced(self, ready):
        return max(ready, key=self._p)

    def choose(self, step, cur, ready, loc):
        if self.change and step >= self.change[0]:
            self.change.pop(0)
            self.low -= 1
            self.prio[cur.idx] = self.low
        return max(ready, key=self._p)


class Targets:
    """Switch exactly at the chosen lines (each time, or each n-th time, a thread gets there)."""

    def __init__(self, seed, locs, every=1):
        self.r, self.locs, self.every, self.n = random.Random(seed), set(locs), every, {}

    def forced(self, ready):
        return self.r.choice(ready)

    def choose(self, step, cur, ready, loc):
        if loc in self.locs:
            k = (cur.idx, loc)
            self.n[k] = self.n.get(k, 0) + 1
            if self.n[k] % self.every == 0:
                return self.r.choice([t for t in ready if t is not cur])
        return None


class Explicit:
    """A recorded (possibly reduced) list of switches."""

    def __init__(self, switches):
        self.at = {a: b for a, b in switches}

    def forced(self, ready):
        return min(ready, key=lambda t: t.idx)

    def choose(self, step, cur, ready, loc):
        i = self.at.get(step)
        if i is None:
            return None
        for t in ready:
            if t.idx == i:
                return t
        return None


def gen_policy(rng):
    k = rng.choice(["random", "random", "priority", "targets", "targets", "targets"])
    d = {"kind": k, "seed": rng.randrange(1 << 30), "gran": rng.choice(["line", "line", "line", "opcode"])}
    if k == "random":
        d["p"] = rng.choice([0.003, 0.02, 0.1, 0.3, 0.6])
    elif k == "priority":
        d["depth"] = rng.choice([1, 2, 3, 5])
    else:
        d["locs"] = [round(rng.random(), 6) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        d["every"] = rng.choice([1, 1, 1, 2, 3])
        d["by"] = rng.choice(["line", "function"])
    return d


FUNCS = {}


def functions(f):
    """line -> first line of the innermost function around it, in a file of the library"""
    if f not in FUNCS:
        out = FUNCS[f] = {}

        def walk(node, cur):
            for c in ast.iter_child_nodes(node):
                inner = c.lineno if isinstance(c, (ast.FunctionDef, ast.Lambda)) else cur
                if hasattr(c, "lineno"):
                    for l in range(c.lineno, c.end_lineno + 1):
                        out[l] = inner
                walk(c, inner)
        with open(os.path.join(G["root"], f)) as h:
            walk(ast.parse(h.read()), 0)
    return FUNCS[f]


def policy(d, counts):
    """counts: lines reached by the threads when run one after another."""
    if d["kind"] == "random":
        return Random(d["seed"], d["p"])
    if d["kind"] == "priority":
        return Priority(d["seed"], sum(counts.values()), d["depth"])
    if d["kind"] == "explicit":
        return Explicit(d["switches"])
    keys = sorted(counts)
    locs = [spot(keys, u, d.get("by")) for u in d["locs"]] if keys else []
    return Targets(d["seed"], locs, d["every"])


def spot(keys, u, by=None):
    """The place (file, line, ...) that the number u in [0, 1) chooses: any, or any in any function (short functions as often as long ones)."""
    at = lambda u, l: l[min(len(l) - 1, int(u * len(l)))]
    if by != "function":
        return at(u, keys)
    fs = {}
    for k in keys:
        fs.setdefault((k[0], functions(k[0]).get(k[1], 0)), []).append(k)
    fl = sorted(fs)
    return at(u * len(fl) % 1, fs[at(u, fl)])


def shrink_policy(d, record):
    """record: function that runs the scenario and returns its switches."""
    if d["kind"] != "explicit":
        yield {"kind": "explicit", "switches": record(), "gran": d["gran"]}
        return
    sw = d["switches"]
    n = len(sw)
    c = n // 2
    while c >= 1:
        for i in range(0, n, c):
            yield dict(d, switches=sw[:i] + sw[i + c:])
        c //= 2
