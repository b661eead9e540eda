import os
import re
import shutil
import tempfile

import numpy as np
from scipy import stats

from .. import faults as F, inputs as I, iofs, observe as O, ops, rngseam as R
from ..boot import G
from ..core import Violation
from ..util import need, quiet

ID = "F03"
PLAN = {"quick": (3800, 40), "thorough": (40000, 850)}
RULE = ("a run = one homogeneity report (of a Spatial_Markov or of homogeneity results) asked for several times, to files that may already exist, while opening, writing, closing or printing fails, is cut short or kills the process; "
        "reports that are said to be done are parsed and compared with the transition matrices, others must raise. Non-trivial: a fault fired; distinct by faults and report")
STATES = "distinct (fault, bytes that reached the device before it)"
REAL = ["giddy.markov", "numpy", "scipy", "CPython's text and buffer layers of files", "files in a scratch directory"]
STUB = ["the raw file device and standard output (scripted faults)", "the process that crashes is a forked copy"]


def gen(rng, i, tier):
    big = rng.random() < 0.15
    k = rng.choice([2, 3, 3, 4, 5]) if not big else rng.choice([12, 20])
    m = rng.choice([2, 2, 3, 4]) if not big else rng.choice([5, 8])
    s = {}
    if rng.random() < 0.5 and not big:
        s["kind"] = "spatial"
        n = rng.randrange(4, 9)
        s["Y"], s["w"] = I.panel(rng, n, rng.randrange(3, 6)), I.gen_w(rng, n)
        s["k"], s["m"] = rng.choice([2, 3, 4]), rng.choice([2, 3])
        s["fixed"] = rng.random() < 0.7
        s["vname"] = rng.choice([None, "income", "x y", "Größe"])
        s["fill"] = rng.random() < 0.4
        s["lazy"] = rng.random() < 0.3
    else:
        s["kind"] = "hom"
        z, up = rng.choice([0.0, 0.1, 0.4]), rng.choice([1, 1, 1, 1, 50, 99999])
        s["T"] = [[[0 if rng.random() < z else rng.randrange(1, 40) * up for _ in range(k)] for _ in range(k)] for _ in range(m)]
        s["dt"] = rng.choice(["f8", "f8", "i8"])
        s["rnames"] = rng.choice([None, None, ["r%d" % j for j in range(m)], ["a rather long name %d" % j for j in range(m)],
                                  [1990 + j for j in range(m)], ["Süd-%d" % j for j in range(m)]])
        s["cnames"] = rng.choice([None, None, ["c%d" % j for j in range(k)], [10 * j for j in range(k)], ["quite long %d" % j for j in range(k)], ["côté %d Ω" % j for j in range(k)]])
        s["title"] = rng.choice([None, "A title", "T", "Übergänge – 北"])
    s["calls"] = []
    fa, fb = rng.choice([("a", "b")] * 3 + [("report.v2", "report.v3"), ("x", "x.tex"), ("a b", "ä"), (".a", "a."), ("%s", "{}")])
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        s["calls"].append({"file": rng.choice([fa, fa, fb, None]) if rng.random() < 0.9 else "missing/a",
                           "chunk": rng.choice([1, 64, 8192]), "buf": rng.choice([1, 16, 100, 8192]),
                           "fault": iofs.gen_fault(rng) if rng.random() < 0.75 else None})
    s["calls"].append({"file": rng.choice([fa, fa, fb]), "chunk": rng.choice([1, 8192]), "buf": rng.choice([1, 8192]), "fault": None})
    s["old"] = {f: rng.choice(["", "x\n", "an old report\n" * 900]) for f in (fa, fb) if rng.random() < 0.4}
    return s


def model(Ts):
    """The homogeneity statistics of the matrices, from their definitions."""
    T = np.array(Ts, dtype=float)
    m, k, _ = T.shape
    tot = T.sum(axis=0)

    def shares(M):
        return [[M[i, j] / M[i].sum() if M[i].sum() else 0.0 for j in range(k)] for i in range(k)]
    p0, p1 = shares(tot), [shares(t) for t in T]
    Q = LR = 0.0
    dof = 0
    for i in range(k):
        a = int((tot[i] > 0).sum())
        b = sum(1 for t in T if t[i].sum() > 0)
        dof += (a - 1) * (b - 1)
        for r in range(m):
            ni = T[r, i].sum()
            for j in range(k):
                if p0[i][j] > 0:
                    Q += ni * (p1[r][i][j] - p0[i][j]) ** 2 / p0[i][j]
                    if T[r, i, j] > 0:
                        LR += 2 * T[r, i, j] * np.log(p1[r][i][j] / p0[i][j])
    with quiet():
        return {"k": k, "m": m, "n": int(tot.sum()), "p0": p0, "p1": p1, "Q": Q, "LR": LR, "dof": dof,
                "LRp": float(1 - stats.chi2.cdf(LR, dof)), "Qp": float(1 - stats.chi2.cdf(Q, dof))}


def rows_of(M, rn, cn, title):
    """What both forms of the report say, as rows of cells."""
    head = [[title], ["Number of classes: %d" % M["k"]], ["Number of transitions: %d" % M["n"]],
            ["Number of regimes: %d" % M["m"]], ["Regime names: " + ", ".join(rn)]]
    st = [[M["LR"], M["Q"]], [str(M["dof"]), str(M["dof"])], [M["LRp"], M["Qp"]]]
    tab = []
    for name, p in [("P(H0)", M["p0"])] + [("P(%s)" % r, p) for r, p in zip(rn, M["p1"])]:
        tab.append([name] + cn)
        for c, row in zip(cn, p):
            tab.append([c] + list(row))
    return head, st, tab


def same_cell(got, want):
    if isinstance(want, str):
        return " ".join(got.split()) == " ".join(want.split())
    try:
        v = float(got)
    except ValueError:
        return False
    if want != want:
        return v != v
    return abs(v - want) <= 0.0005 + 1e-6 + 1e-9 * abs(want) and re.fullmatch(r"\s*(-?\d+\.\d{3}|nan|inf|-inf)\s*", got) is not None


def check_printed(text, M, rn, cn, title):
    head, st, tab = rows_of(M, rn, cn, title)
    lines = [l for l in text.split("\n") if l.strip() and set(l.strip()) != {"-"}]
    need(len(lines) == 5 + 4 + len(tab), "printed", "the report has %d lines of text, expected %d:\n%s" % (len(lines), 9 + len(tab), text))
    # title first; the four facts in any order
    need(lines[0].split() == title.split(), "printed", "title line %r" % lines[0])
    need(sorted(" ".join(l.split()) for l in lines[1:5]) == sorted(" ".join(h[0].split()) for h in head[1:]), "printed",
         "heading %r" % lines[1:5])
    need(lines[5].split()[0] == "Test", "printed", "line %r" % lines[5])
    for l, name, w in zip(lines[6:9], ["Stat.", "DOF", "p-value"], st):
        c = l.split()
        need(len(c) == 3 and c[0] == name and same_cell(c[1], w[0]) and same_cell(c[2], w[1]), "printed", "line %r, expected %s %s" % (l, name, w))
    for l, w in zip(lines[9:], tab):
        c = [x for x in re.split(r"\s{2,}", l.strip())] if not all(isinstance(x, str) for x in w) else None
        if c is None:
            need(l.split() == " ".join(map(str, w)).split(), "printed", "line %r, expected %s" % (l, w))
        else:
            t = l.split()
            vals = t[len(t) - len(w) + 1:]
            need(" ".join(t[:len(t) - len(w) + 1]) == " ".join(str(w[0]).split()) and len(vals) == len(w) - 1
                 and all(same_cell(a, b) for a, b in zip(vals, w[1:])), "printed", "line %r, expected %s" % (l, w))


def check_tex(text, M, rn, cn, title):
    head, st, tab = rows_of(M, rn, cn, title)
    k1 = M["k"] + 1
    short = text if len(text) < 1500 else text[:700] + " ... " + text[-500:]
    m = re.fullmatch(r"\s*\\begin\{tabular\}\{([^}]*)\}(.*)\\end\{tabular\}\s*", text, re.S)
    need(m is not None, "file", "not one complete table:\n%s" % short)
    need(m.group(1).count("r") == k1, "file", "table of %d columns, expected %d" % (m.group(1).count("r"), k1))
    body = m.group(2).replace("\\hline", " ")
    rows = [r for r in body.split("\\\\")]
    need(rows[-1].strip() == "", "file", "the last row is not ended: %r" % rows[-1][:200])
    rows = rows[:-1]
    strip = lambda c: (re.fullmatch(r"\s*\\multicolumn\{\d+\}\{[^}]*\}\{(.*)\}\s*", c, re.S) or [None, c])[1].strip()
    cells = [[strip(c) for c in r.split("&")] for r in rows]
    need(len(cells) == 5 + 4 + len(tab), "file", "%d rows, expected %d:\n%s" % (len(cells), 9 + len(tab), short))
    need(" ".join(cells[0][0].split()) == " ".join(title.split()), "file", "title %r" % cells[0])
    need(sorted(tuple(c) for c in cells[1:5]) == sorted(tuple(h) for h in head[1:]), "file", "heading %r, expected %r" % (cells[1:5], head[1:]))
    need(cells[5][0] == "Test", "file", "row %r" % cells[5])
    for c, name, w in zip(cells[6:9], ["Stat.", "DOF", "p-value"], st):
        need(len(c) == 3 and c[0] == name and same_cell(c[1], w[0]) and same_cell(c[2], w[1]), "file", "row %r, expected %s %s" % (c, name, w))
    for c, w in zip(cells[9:], tab):
        need(len(c) == k1 and all(same_cell(a, b) for a, b in zip(c, w)), "file", "row %r, expected %s" % (c, w))


def run(s, ctx):
    scratch = tempfile.mkdtemp(prefix="dst-f03-")
    try:
        _run(s, ctx, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(s, ctx, scratch):
    mk = G["markov"]
    with quiet():
        if s["kind"] == "spatial":
            o = mk.Spatial_Markov(I.arr(s["Y"]), I.w_of(s["w"]), k=s["k"], m=s["m"], fixed=s["fixed"], variable_name=s["vname"],
                                  fill_empty_classes=s["fill"])
            if s["lazy"]:
                o.LR, o.Q
            Ts = np.array(o.T)
            rn = ["LAG%d" % j for j in range(len(Ts))]
            cn = ["C%d" % j for j in range(Ts.shape[1])]
            title = "Spatial Markov Test" + (": " + s["vname"] if s["vname"] else "")
            ask = lambda f: o.summary() if f is None else o.summary(f)
        else:
            Ts = [np.array(t, dtype=s["dt"]) for t in s["T"]]
            kw = {}
            if s["rnames"]:
                kw["regime_names"] = list(s["rnames"])
            if s["cnames"]:
                kw["class_names"] = list(s["cnames"])
            o = mk.homogeneity(Ts, **kw)
            rn = [str(r) for r in (s["rnames"] or range(len(Ts)))]
            cn = [str(c) for c in (s["cnames"] or range(len(Ts[0])))]
            title = s["title"] or "Markov Homogeneity Test"
            kt = {"title": s["title"]} if s["title"] else {}
            ask = lambda f: o.summary(**kt) if f is None else o.summary(file_name=f, **kt)
    M = model(Ts)
    was = [(a, v) for a, v in O.public(o) if a not in ("class_names", "w")]
    for f, text in s["old"].items():
        with open(os.path.join(scratch, f + ".tex"), "w") as h:
            h.write(text)
    seen = []
    for j, c in enumerate(s["calls"]):
        name = None if c["file"] is None else os.path.join(scratch, c["file"])
        path = None if name is None else name + ".tex"
        fault = c["fault"]
        if fault:
            def dry():
                with iofs.FS(scratch, None, c["chunk"], c["buf"]) as fs:
                    try:
                        ask(name)
                    except Exception:
                        pass
                return {"writes": fs.writes, "prints": fs.out.n}
            keep = {p: open(os.path.join(scratch, p), "rb").read() for p in os.listdir(scratch)}
            counts = F.forked(dry)
            for p in os.listdir(scratch):
                os.unlink(os.path.join(scratch, p))
            for p, t in keep.items():
                with open(os.path.join(scratch, p), "wb") as h:
                    h.write(t)
            fault = iofs.resolve(fault, counts)
        if fault and fault["err"] == "crash":
            pid = os.fork()
            if pid == 0:
                try:
                    with iofs.FS(scratch, fault, c["chunk"], c["buf"]):
                        ask(name)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if os.WEXITSTATUS(st) == 77:
                left = os.path.getsize(path) if path and os.path.exists(path) else -1
                ctx.hit("fault:crash at " + fault["at"])
                ctx.state("crash", fault["at"], left)
                ctx.nontrivial = True
                seen.append(["crash", fault["at"], left])
            continue
        exc = None
        before = {p: os.stat(os.path.join(scratch, p)).st_size for p in os.listdir(scratch)}
        with iofs.FS(scratch, fault, c["chunk"], c["buf"]) as fs:
            try:
                with np.errstate(all="ignore"):
                    ask(name)
            except BaseException as e:
                exc = e
        opened = [h for h in fs.handles if not h.closed]
        what = "summary(%s) number %d" % ("file" if name else "", j)
        if fs.fired:
            ctx.hit("fault:%s at %s" % (fault["err"], fault["at"]))
            ctx.nontrivial = True
            size = os.path.getsize(path) if path and os.path.exists(path) else -1
            ctx.state(fault["at"], fault["err"], size, fs.out.n)
            seen.append([fault["at"], fault["err"], size, fs.out.n])
        else:
            seen.append(["done", c["file"], type(exc).__name__])
        need(not opened, "handle-left-open", "%s (%s): %d file handle(s) left open" % (what, fault, len(opened)))
        if fs.fired and not fs.transparent:
            kind = type(iofs.error(fault["err"]))
            ok = isinstance(exc, kind) and (kind in (KeyboardInterrupt, MemoryError) or exc.errno == iofs.ERR[fault["err"]])
            need(ok, "swallowed", "%s: the fault %s did not reach the caller, who got %r" % (what, fault, exc))
        elif c["file"] == "missing/a":
            need(isinstance(exc, OSError), "swallowed", "%s to a directory that does not exist: the caller got %r" % (what, exc))
            exc = "expected"
        else:
            if exc is not None:
                raise Violation("exception", "%s raised %s: %s" % (what, type(exc).__name__, exc))
            check_printed(fs.out.getvalue(), M, rn, cn, title)
            if path:
                need(os.path.exists(path), "file", "%s returned but wrote no file" % what)
                with open(path, errors="replace") as h:
                    check_tex(h.read(), M, rn, cn, title)
            for p, n in before.items():
                need(path is not None and p == os.path.basename(path) or os.path.getsize(os.path.join(scratch, p)) == n, "file",
                     "%s changed another file" % what)
        now = [(a, v) for a, v in O.public(o) if a not in ("class_names", "w")]
        d = O.diff(O.canon(now), O.canon(was), "after " + what, rtol=1e-12, atol=0.0)
        need(d is None, "object-damaged", str(d))
    ctx.sig = [s["kind"], seen, len(rn), len(cn)]
    ctx.event(ctx.sig)


def shrink(s):
    cs = s["calls"]
    for j in range(len(cs)):
        if len(cs) > 1:
            yield dict(s, calls=cs[:j] + cs[j + 1:])
    if s["old"]:
        yield dict(s, old={})
    for j, c in enumerate(cs):
        put = lambda d: dict(s, calls=cs[:j] + [d] + cs[j + 1:])
        if c["fault"]:
            yield put(dict(c, fault=None))
            if c["fault"].get("sticky"):
                yield put(dict(c, fault=dict(c["fault"], sticky=False)))
            if c["fault"].get("part"):
                yield put(dict(c, fault=dict(c["fault"], part=0.0)))
        if c["chunk"] != 8192 or c["buf"] != 8192:
            yield put(dict(c, chunk=8192, buf=8192))
    if s["kind"] == "hom":
        T = s["T"]
        if len(T) > 2:
            yield dict(s, T=T[:2], rnames=s["rnames"] and s["rnames"][:2])
        if len(T[0]) > 2:
            yield dict(s, T=[[r[:2] for r in t[:2]] for t in T], cnames=s["cnames"] and s["cnames"][:2])
        for a in ("rnames", "cnames", "title"):
            if s[a]:
                yield dict(s, **{a: None})
        if s["dt"] != "f8":
            yield dict(s, dt="f8")
