"""The seam around numpy's global random stream: every run decides the state it is in.

A stream is described by a small dict, so that scenarios are explicit and shrink well:
  {"kind": "seed", "seed": s}
  {"kind": "identity", "n": n, "seed": s}   permutations of n leave everything in place
  {"kind": "zeros" | "ones" | "words", ...}   scripted 32-bit outputs (624 of them, then seeded)
"""
import numpy as np

N = 624


def _untemper(y):
    y &= 0xFFFFFFFF
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    t = y
    for _ in range(7):
        t = y ^ ((t << 7) & 0x9D2C5680)
    y = t & 0xFFFFFFFF
    t = y
    for _ in range(3):
        t = y ^ (t >> 11)
    return t & 0xFFFFFFFF


def state(spec):
    rs = np.random.RandomState(spec.get("seed", 0) & 0xFFFFFFFF)
    kind = spec["kind"]
    kept = (1, 0.12345) if spec.get("gauss") else (0, 0.0)      # (a normal number the generator holds back)
    if kind == "seed":
        return rs.get_state()[:3] + kept
    if kind == "identity":
        n = max(2, spec["n"])
        per = list(range(n - 1, 0, -1))
        words = (per * (N // len(per) + 1))[:spec.get("len", N)]
    elif kind == "zeros":
        words = [0] * spec.get("len", N)
    elif kind == "rotate":
        # a fixed block of words repeated: the same permutation again and again
        n = max(2, spec["n"])
        r = np.random.RandomState(spec.get("seed", 0) + 7)
        per = [int(r.randint(0, i + 1)) for i in range(n - 1, 0, -1)]
        words = (per * (N // len(per) + 1))[:N]
    elif kind == "mixed":
        # now and then an identity permutation among random ones
        n = max(2, spec["n"])
        r = np.random.RandomState(spec.get("seed", 0) + 11)
        words = []
        while len(words) < N:
            if r.randint(0, 3) == 0:
                words += list(range(n - 1, 0, -1))
            else:
                words += [int(r.randint(0, i + 1)) for i in range(n - 1, 0, -1)]
        words = words[:N]
    elif kind == "words":
        words = spec["words"][:N]
    else:
        raise ValueError(kind)
    st = rs.get_state()
    key = np.array(st[1], dtype=np.uint32)
    for i, x in enumerate(words):
        key[i] = _untemper(int(x))
    return ("MT19937", key, 0) + kept


def apply(spec):
    np.random.set_state(state(spec))


def twin(spec=None):
    """A private generator in the same state (for reference models)."""
    rs = np.random.RandomState(0)
    rs.set_state(state(spec) if spec is not None else np.random.get_state())
    return rs


def same(a, b):
    return a[0] == b[0] and a[2:] == b[2:] and bool((np.asarray(a[1]) == np.asarray(b[1])).all())


def gen(rng, n):
    d = _gen(rng, n)
    return dict(d, gauss=True) if rng.random() < 0.15 else d


def _gen(rng, n):
    """A random stream description; n is the size of the permutations mostly drawn from it."""
    kind = rng.choices(["seed", "mixed", "identity", "rotate", "zeros"], [8, 4, 2, 1, 1])[0]
    s = rng.randrange(1 << 30)
    if kind in ("mixed", "identity", "rotate"):
        d = {"kind": kind, "n": n, "seed": s}
        if kind == "identity" and rng.random() < 0.5:
            d["len"] = rng.randrange(1, 200)
        return d
    if kind == "zeros":
        return {"kind": "zeros", "seed": s, "len": rng.choice([624, rng.randrange(1, 300)])}
    return {"kind": "seed", "seed": s}


def shrink(spec):
    if spec.get("gauss"):
        yield {k: v for k, v in spec.items() if k != "gauss"}
    if spec.get("kind") != "seed":
        yield {"kind": "seed", "seed": spec.get("seed", 0)}
    if spec.get("seed", 0) > 9:
        yield dict(spec, seed=spec["seed"] % 10)


def digest():
    import hashlib
    st = np.random.get_state()
    return hashlib.sha1(repr((np.asarray(st[1]).tolist(), st[2:])).encode()).hexdigest()[:12]


def label(spec):
    """Name under which a stream is counted: anything but a seeded stream is a fault of the random source."""
    return {"seed": "stream:seeded", "mixed": "fault:random stream with identity permutations among others",
            "identity": "fault:random stream of identity permutations", "rotate": "fault:random stream that repeats itself",
            "zeros": "fault:random stream stuck at zero"}.get(spec["kind"], "fault:random stream scripted")
