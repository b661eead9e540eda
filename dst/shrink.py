"""Generic reductions of scenario parts."""
from . import rngseam as R
from .util import smaller_ints


def drop_row(spec, k):
    return dict(spec, a=spec["a"][:k] + spec["a"][k + 1:])


def drop_unit_w(w, k):
    ren = lambda a: a if a < k else a - 1
    ids = w["ids"][:k] + w["ids"][k + 1:]
    if sorted(map(str, w["ids"])) == sorted(map(str, range(len(w["ids"])))) and all(isinstance(i, int) for i in w["ids"]):
        ids = [i if i < w["ids"][k] else i - 1 for i in ids]
    E = [[ren(a), ren(b), v] for a, b, v in w["edges"] if a != k and b != k]
    return dict(w, ids=ids, edges=E)


def no_islands(w):
    return {a for a, b, _ in w["edges"] if a != b} == set(range(len(w["ids"])))


def units(s, keys, wkey="w", low=3):
    n = len(s[wkey]["ids"]) if wkey in s else len(s[keys[0]]["a"])
    if n <= low:
        return
    for k in range(n - 1, -1, -1):
        c = dict(s)
        if wkey in s:
            c[wkey] = drop_unit_w(s[wkey], k)
            if not no_islands(c[wkey]):
                continue
        for key in keys:
            if isinstance(s.get(key), dict):
                c[key] = drop_row(s[key], k)
            elif isinstance(s.get(key), list):
                c[key] = s[key][:k] + s[key][k + 1:]
        yield c


def cols(s, key, low=2):
    t = len(s[key]["a"][0])
    if t > low:
        for j in range(t - 1, -1, -1):
            yield dict(s, **{key: dict(s[key], a=[r[:j] + r[j + 1:] for r in s[key]["a"]])})


def common(s, keys, wkey="w", low=3):
    if "P" in s:
        for p in smaller_ints(s["P"], 1):
            yield dict(s, P=p)
    yield from units(s, keys, wkey, low)
    if wkey in s:
        if s[wkey]["tr"] != "O":
            yield dict(s, **{wkey: dict(s[wkey], tr="O")})
        if any(v != 1.0 for _, _, v in s[wkey]["edges"]):
            yield dict(s, **{wkey: dict(s[wkey], edges=[[a, b, 1.0] for a, b, _ in s[wkey]["edges"]])})
    if "rng" in s:
        for r in R.shrink(s["rng"]):
            yield dict(s, rng=r)
