"""Explicit (JSON) descriptions of input data and their construction."""
import numpy as np


# ------------------------------------------------------------------ arrays
def arr(spec):
    """{"a": nested list, "dt": dtype, "ord": "F"?} -> array"""
    dt = spec.get("dt", "f8")
    a = np.array(spec["a"], dtype=object if dt == "O" else (str if dt == "U" else dt))
    if spec.get("ord") == "F":
        a = np.asfortranarray(a)
    elif spec.get("ord") == "V":          # every second element of a larger array
        b = np.full(tuple(2 * q for q in a.shape), a.flat[0], dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


def size(rng, lo, hi, big, p=0.03):
    """Number of units: usually small, now and then large enough for narrow integers to overflow."""
    return rng.choice(big) if rng.random() < p else rng.randrange(lo, hi)


def perms(rng, n, usual, rare=0.015):
    """Number of permutations: usually few; many now and then on a small map; few on a large one."""
    if n >= 20:
        return rng.choice([0, 1, 1, 2, 2, 3, 4] if 0 in usual else [1, 1, 2, 3, 4]) if n <= 150 else rng.choice([0, 1, 2] if 0 in usual else [1, 2])
    if n <= 7 and rng.random() < rare * 2:
        return rng.choice([101, 200, 257, 500, 999, 1001, 1999])
    return rng.choice(usual)


def vals(rng, n, t=None, kind=None):
    """n (x t) numbers; kind: f distinct-ish floats, i small ints (ties), m floats with ties."""
    kind = kind or rng.choice("ffimm")

    def one():
        if kind == "f":
            return round(rng.uniform(1, 9), 4)
        if kind == "i":
            return rng.randrange(0, 5)
        return rng.choice([0.25, 0.5, 1.0, 1.5, 2.75, 3.5])

    dt = {"f": "f8", "i": "i8", "m": "f8"}[kind]
    if t is None:
        return {"a": [one() for _ in range(n)], "dt": dt}
    d = {"a": [[one() for _ in range(t)] for _ in range(n)], "dt": dt}
    if rng.random() < 0.15:
        d["ord"] = "F"
    return d


def panel(rng, n, t, positive=True):
    """A panel with spatial structure and persistence, values > 0."""
    kind = rng.choice("fffm")
    base = [rng.uniform(1, 6) + 3.0 * (i / n) for i in range(n)]
    out = []
    for i in range(n):
        row, v = [], base[i]
        for _ in range(t):
            v = max(0.2, v + rng.uniform(-1.2, 1.2))
            row.append(round(v, 3) if kind == "f" else round(v * 2) / 2 + 0.5)
        out.append(row)
    return {"a": out, "dt": "f8"}


def classes(rng, n, t, k, names=None):
    """Class panel in which every class occurs in the first and in the last period."""
    names = names or list(range(k))
    out = [[names[rng.randrange(k)] for _ in range(t)] for _ in range(n)]
    for j in range(t):
        pos = list(range(n))
        rng.shuffle(pos)
        for c in range(min(k, n)):
            out[pos[c]][j] = names[c]
    return out


def names(rng, k):
    """k different names of regions or classes, as users write them."""
    if k <= 13 and rng.random() < 0.4:
        return list("abcdefghijklm"[:k])
    pool = ["North", "north", "SOUTH", "South ", " west", "Región é", "a", "A", "b", "B", "10", "9", "2", "low", "Low", "high_2",
            "New York", "x" * 30, "Z", "z", "0", "01", "Ost", "-1", "1.5"]
    return rng.sample(pool, k)


# ------------------------------------------------------------------ weights
def gen_w(rng, n, ids="int", self_w=0.0, sym=True, binary=None, islands=0.0, shape=None):
    """Description of a weights object over n units; edges by position."""
    shape = shape or rng.choice(["ring", "grid", "random", "random", "star"])
    E = set()
    if shape == "ring":
        for i in range(n):
            E.add((i, (i + 1) % n))
    elif shape == "grid":
        c = max(2, int(n ** 0.5))
        for i in range(n):
            if (i + 1) % c and i + 1 < n:
                E.add((i, i + 1))
            if i + c < n:
                E.add((i, i + c))
            elif i % c == 0 and i > 0:
                E.add((i - 1, i))
    elif shape == "full":
        for i in range(n):
            for j in range(i):
                E.add((j, i))
    elif shape == "star":
        for i in range(1, n):
            E.add((0, i))
        for _ in range(n // 2):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                E.add((min(a, b), max(a, b)))
    else:
        for i in range(1, n):
            E.add((rng.randrange(i), i))
        for _ in range(rng.randrange(0, n + 2)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                E.add((min(a, b), max(a, b)))
    if binary is None:
        binary = rng.random() < 0.6
    deg = {i: set() for i in range(n)}
    edges = {}
    for a, b in sorted(E):
        if a == b:
            continue
        v = 1.0 if binary else rng.choice([0.5, 1.0, 1.0, 2.0, 3.0])
        edges[(a, b)] = v
        edges[(b, a)] = v if sym else rng.choice([0.5, 1.0, 2.0])
        deg[a].add(b)
        deg[b].add(a)
    for i in range(n):
        if not deg[i]:
            j = (i + 1) % n
            edges[(i, j)] = edges[(j, i)] = 1.0
            deg[i].add(j)
            deg[j].add(i)
    if islands and rng.random() < islands:
        k = rng.randrange(n)
        if all(len(deg[j]) > 1 for j in deg[k]):
            for j in deg[k]:
                edges.pop((k, j), None)
                edges.pop((j, k), None)
    if self_w and rng.random() < self_w:
        for i in range(n):
            if rng.random() < 0.5:
                edges[(i, i)] = 1.0
    order = list(edges)
    rng.shuffle(order)
    if ids == "int":
        names = list(range(n))
        set_order = rng.random() < 0.5
    elif ids == "intshift":
        names = [10 + 3 * i for i in range(n)]
        rng.shuffle(names)
        set_order = True
    else:
        names = ["%s%d" % (rng.choice(["a", "b", "c", "x", "A", "B ", "é"]), i) for i in range(n)]
        set_order = rng.random() < 0.7
        if not set_order:
            names.sort()
    return {"ids": names, "edges": [[a, b, edges[(a, b)]] for a, b in order],
            "tr": rng.choice(["O", "O", "R", "B", "R", "D", "V"]), "set_order": set_order}


def w_of(spec):
    from libpysal.weights import W
    ids = spec["ids"]
    nb = {i: [] for i in ids}
    wt = {i: [] for i in ids}
    for a, b, v in spec["edges"]:
        nb[ids[a]].append(ids[b])
        wt[ids[a]].append(float(v))
    w = W(nb, wt, id_order=list(ids) if spec.get("set_order") else None, silence_warnings=True)
    if spec.get("tr", "O") != "O":
        w.transform = spec["tr"]
    return w


def w_print(w):
    """Everything a caller can see of a weights object, in canonical form."""
    return (str(w.transform).upper(), list(w.id_order),
            [(repr(i), [repr(j) for j in w.neighbors[i]], [float(v) for v in w.weights[i]])
             for i in w.neighbors],
            sorted((t, sorted((repr(i), tuple(v)) for i, v in d.items()))
                   for t, d in w.transformations.items() if t == "O"))


def w_dense(w):
    """Dense matrix in id order from the visible neighbors and weights."""
    ids = list(w.id_order)
    pos = {i: p for p, i in enumerate(ids)}
    M = np.zeros((len(ids), len(ids)))
    for i in ids:
        for j, v in zip(w.neighbors[i], w.weights[i]):
            M[pos[i], pos[j]] = v
    return M


# ------------------------------------------------------------------ data frames
def frame(n, cols=None):
    """GeoDataFrame of n unit squares in a row, with data columns."""
    import geopandas
    from shapely.geometry import box
    d = {"geometry": [box(i % 4, i // 4, i % 4 + 1, i // 4 + 1) for i in range(n)]}
    for c, v in (cols or {}).items():
        d[c] = list(v)
    return geopandas.GeoDataFrame(d)
