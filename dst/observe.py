"""Canonical snapshots of what a user can observe, and their comparison."""
import numpy as np

RTOL = 1e-9


def canon(x, depth=0):
    """Nested tuples of plain values; arrays become ('arr', shape, kind, values)."""
    import types
    if depth > 12:
        return ("deep",)
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", tuple(canon(i, depth + 1) for i in x.ravel().tolist())
                    if x.ndim <= 1 else ("nd", x.shape, tuple(canon(i, depth + 1) for i in x)))
        return ("arr", x.shape, x.dtype.kind, x.copy())
    if isinstance(x, tuple) and len(x) == 4 and isinstance(x[0], str) and x[0] == "arr":
        return x
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(canon(i, depth + 1) for i in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((canon(i, depth + 1) for i in x), key=repr)))
    if isinstance(x, dict):
        return ("map", tuple((repr(k), canon(x[k], depth + 1)) for k in sorted(x, key=repr)))
    if isinstance(x, (types.FunctionType, types.MethodType, types.ModuleType, type)):
        return ("fn",)
    mod = type(x).__module__
    if mod.startswith("libpysal"):
        from .inputs import w_print
        try:
            return ("W", w_print(x))
        except Exception:
            return ("W?",)
    if mod.startswith("giddy"):
        return ("obj", type(x).__name__, public(x, depth + 1))
    if mod.startswith("pandas") or mod.startswith("geopandas"):
        return ("frame", tuple(map(str, x.columns)), tuple(
            canon(np.asarray(x[c]) if str(x[c].dtype) != "geometry" else [g.wkt for g in x[c]], depth + 1)
            for c in x.columns))
    return ("other", type(x).__name__)


def public(obj, depth=0, skip=()):
    """Public data attributes of an object (not its lazily computed ones)."""
    out = []
    for k in sorted(vars(obj)):
        if k.startswith("_") or k in skip:
            continue
        out.append((k, canon(vars(obj)[k], depth + 1)))
    return tuple(out)


def diff(a, b, path="", rtol=RTOL, atol=1e-12, kinds=True):
    """None if equal, else a short description of the first difference (kinds: floats are not ints)."""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return None if a == b else "%s: %r != %r" % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return "%s: %r != %r" % (path, a, b)
    if type(a) is not type(b):
        return "%s: %s != %s" % (path, short(a), short(b))
    if isinstance(a, tuple):
        if a and b and a[0] == "arr" and b[0] == "arr" and len(a) == 4 and len(b) == 4:
            if a[1] != b[1]:
                return "%s: shape %s != %s" % (path, a[1], b[1])
            if kinds and a[2] != b[2]:
                return "%s: array of %s != array of %s" % (path, a[3].dtype, b[3].dtype)
            x, y = a[3], b[3]
            if x.dtype.kind in "fcbiu" and y.dtype.kind in "fcbiu":
                with np.errstate(all="ignore"):
                    ok = np.isclose(x.astype(float), y.astype(float), rtol=rtol, atol=atol, equal_nan=True)
            else:
                ok = np.asarray(x == y)
            if np.all(ok):
                return None
            i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0]) if x.ndim else ()
            return "%s%s: %s != %s" % (path, list(i), x[i] if x.ndim else x, y[i] if y.ndim else y)
        if len(a) != len(b):
            return "%s: length %d != %d (%s / %s)" % (path, len(a), len(b), short(a), short(b))
        for i, (p, q) in enumerate(zip(a, b)):
            name = p[0] if isinstance(p, tuple) and p and isinstance(p[0], str) and len(p) == 2 else i
            d = diff(p, q, "%s.%s" % (path, name) if isinstance(name, str) else "%s[%d]" % (path, i),
                     rtol, atol, kinds)
            if d:
                return d
        return None
    return None if a == b else "%s: %s != %s" % (path, short(a), short(b))


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


def sig(x):
    """Rounded text of a canonical snapshot, for state signatures and digests."""
    if isinstance(x, float):
        return "nan" if x != x else "%.8g" % x
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            return ",".join("%.8g" % v for v in x.ravel())
        return ",".join(map(str, x.ravel().tolist()))
    if isinstance(x, tuple):
        return "(" + ";".join(sig(i) for i in x) + ")"
    return repr(x)


def figure(fig):
    """What a drawn figure shows: per axes the points, lines, mesh values, texts and tick labels."""
    out = []
    for ax in fig.axes:
        d = []
        for c in ax.collections:
            arr = c.get_array()
            arr = None if arr is None else np.ma.filled(np.ma.asarray(arr, dtype=float), -999.0)
            d.append(("col", type(c).__name__, canon(np.ma.filled(np.asarray(c.get_offsets(), dtype=float), np.nan)),
                      None if arr is None else canon(np.asarray(arr, dtype=float)), len(c.get_paths())))
        for ln in ax.lines:
            d.append(("line", canon(np.asarray(ln.get_xdata(), dtype=float)),
                      canon(np.asarray(ln.get_ydata(), dtype=float))))
        d.append(("texts", tuple(t.get_text() for t in ax.texts)))
        d.append(("title", ax.get_title(), ax.get_xlabel(), ax.get_ylabel()))
        if ax.name != "polar":
            d.append(("lim", canon(ax.get_xlim()), canon(ax.get_ylim())))
        d.append(("face", tuple(round(float(v), 6) for v in ax.get_facecolor())))
        leg = ax.get_legend()
        d.append(("legend", None if leg is None else tuple(t.get_text() for t in leg.get_texts())))
        out.append((ax.name, tuple(d)))
    return ("fig", tuple(out))
