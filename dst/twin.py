"""One of several interpreters that run the same sessions (property S07): python -m dst.twin IN OUT

Hash seed and allocator come from the environment; clock, process id, random modules and heap layout are
taken from the description, so that the runs differ in everything but inputs and random state."""
import json
import os
import pickle
import sys


def disturb(env):
    import random
    import time
    off = env["clock"]
    for name in ("time", "monotonic", "perf_counter", "process_time"):
        real = getattr(time, name)
        setattr(time, name, lambda real=real: real() * env["rate"] + off)
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        real = getattr(time, name)
        setattr(time, name, lambda real=real: int(real() * env["rate"] + off * 1e9))
    pid = env["pid"]
    os.getpid = lambda: pid
    random.seed(env["junk"])
    return [bytearray(random.randrange(1, 5000)) for _ in range(env["heap"])]


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    keep = disturb(d["env"])
    from . import boot
    boot.boot()
    from . import ops, rngseam as R, session as S, observe as O, inputs as I
    out = []
    for s in d["sessions"]:
        W = ops.World(s["world"])
        objs, res = [], []
        for st in s["steps"]:
            if S.skip(st, objs):
                objs.append(None)
                res.append(None)
                continue
            r, txt = ops.step_result(W, st, objs)
            objs.append(r)
            res.append((ops.snap(r), txt, R.digest()))
            ops.close_all()
        out.append(res)
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)
    del keep


if __name__ == "__main__":
    main()
