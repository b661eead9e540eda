"""Small executable reference models, written from the documentation and not from the code."""
import numpy as np


def avg_ranks(col):
    col = np.asarray(col, dtype=float)
    return np.array([(col < v).sum() + ((col == v).sum() + 1) / 2.0 for v in col])


def theta(y, labels, regimes):
    R = np.column_stack([avg_ranks(y[:, j]) for j in range(y.shape[1])])
    D = R[:, 1:] - R[:, :-1]
    tot = np.abs(D).sum(axis=0)
    w = np.zeros(D.shape[1])
    for r in regimes:
        s = np.zeros(D.shape[1])
        for i in range(len(labels)):
            if labels[i] == r:
                s = s + D[i]
        w = w + np.abs(s)
    with np.errstate(all="ignore"):
        return w / tot


def sgn(a, b):
    v = (a[0] - b[0]) * (a[1] - b[1])
    return int(v > 0) - int(v < 0)


def spatial_tau(x, y, pairs):
    num = nx = ny = 0
    for i, j in pairs:
        dx, dy = x[i] - x[j], y[i] - y[j]
        if dx * dy != 0:
            nx += 1
            ny += 1
            num += 1 if dx * dy > 0 else -1
        else:
            nx += dx != 0
            ny += dy != 0
    with np.errstate(all="ignore"):
        return np.float64(num) / (np.sqrt(np.float64(nx)) * np.sqrt(np.float64(ny)))


def concord(x, y):
    """Concordance matrix."""
    n = len(x)
    S = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                S[i, j] = sgn((x[i], y[i]), (x[j], y[j]))
    return S


def markov_counts(ids, k):
    T = np.zeros((k, k))
    for row in ids:
        for a, b in zip(row[:-1], row[1:]):
            T[a, b] += 1
    return T


def lag_counts(ids, lids, k, m):
    T = np.zeros((m, k, k))
    for row, lrow in zip(ids, lids):
        for t in range(len(row) - 1):
            T[lrow[t], row[t], row[t + 1]] += 1
    return T


def chi2_stat(T1, T2):
    s = 0.0
    for i in range(T1.shape[0]):
        r1, r2 = T1[i].sum(), T2[i].sum()
        for j in range(T1.shape[1]):
            e = r1 * (T2[i, j] / r2 if r2 > 0 else 0.0)
            d = (T1[i, j] - e) ** 2
            s += d / (e if e != 0 else 1.0)
    return s


def bins_of(v, cuts):
    """Class of v given upper cut-offs (inclusive), above the last one: the last class."""
    c = 0
    while c < len(cuts) and v > cuts[c]:
        c += 1
    return c


def clusters(nodes, adj):
    """Connected components by union-find."""
    parent = {i: i for i in nodes}

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a

    for a, b in adj:
        ra, rb = find(a), find(b)
        if ra != rb:
            parent[ra] = rb
    out = {}
    for i in nodes:
        out.setdefault(find(i), set()).add(i)
    return list(out.values())
