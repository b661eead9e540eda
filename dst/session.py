"""Sessions of steps (see ops) with optional faults, run against one world."""
from . import faults as F, inputs as I, ops, rngseam as R
from .boot import G


MUT = ["panel", "panel2", "x", "y", "z", "Y2", "Y2b", "cls", "clsS", "w", "wi", "wj", "p", "q", "pr", "p0", "p3", "q3", "T1", "T2", "F", "F2", "Ts", "Ts2", "reg", "reg2", "subs", "subs2", "ini", "ini2", "X"]


def used(st):
    """Things in the world that an operation uses and that the user may change."""
    u = [v for v in st["a"].values() if isinstance(v, str) and v in MUT]
    u += {"chi2": ["T1", "T2"], "Sequence": {"user": ["subs"], "user2": ["subs2"]}.get(st["a"].get("dist"), [])}.get(st["new"], [])
    return u or MUT


def gen(rng, nsteps, tier="quick", plots=0.15, mut=0.0, fault=0.0, names=None, world=None, methods=0.5, heavies=0.3):
    wspec = world or ops.gen_world(rng)
    n = wspec["n"]
    steps = []
    cls = {}
    for j in range(nsteps):
        r = rng.random()
        st = None
        if mut and r < mut:
            st = {"mut": rng.choice(MUT),
                  "v": rng.randrange(1000), "fresh": rng.random() < 0.3}
        elif r < mut + methods and cls:
            i = rng.choice(sorted(cls))
            for _ in range(6):
                c = ops.gen_on(rng, n, i, cls[i])
                if c is None:
                    break
                heavy = c["m"] == "composite" and n < 20
                if ops.plots(c, cls[i]) and rng.random() > (plots * heavies if heavy else plots):
                    continue
                st = c
                break
        if st is None:
            st = ops.gen_new(rng, n, names)
            c = ops.result_class(st["new"])
            if ops.methods_of(c):
                cls[j] = c
        if fault and rng.random() < fault and "mut" not in st:
            st["fault"] = F.gen_fault(rng)
        steps.append(st)
    return {"world": wspec, "steps": steps}


def measure(s, mode):
    """Points reached by every step when nothing fails (in a forked copy)."""
    def go():
        W = ops.World(s["world"])
        objs, out = [], []
        for st in s["steps"]:
            if skip(st, objs):
                objs.append(None)
                out.append({})
                continue
            if not st.get("fault"):
                res, _ = ops.step_result(W, st, objs)
                out.append({})
            else:
                rec = F.recorder(mode)
                R.apply(st["rng"])
                with ops.captured():
                    try:
                        with rec:
                            res = ops.call(W, st, objs)
                    except Exception as e:
                        res = ops.Raised(e)
                out.append(rec.count)
            ops.close_all()
            objs.append(res)
        return out
    return F.forked(go)


def skip(st, objs):
    return "on" in st and (objs[st["on"]] is None or isinstance(objs[st["on"]], ops.Raised))


def do(W, st, objs, mode, points, ctx):
    """One step, with its fault if it has one.  Returns (result, text, injected exception or None)."""
    f = st.get("fault")
    if not f or not points:
        res, txt = ops.step_result(W, st, objs)
        return res, txt, None
    R.apply(st["rng"])
    inj = F.injector(mode, points, f)
    got = None
    with ops.captured() as buf:
        try:
            with inj:
                res = ops.call(W, st, objs)
        except (KeyboardInterrupt, MemoryError) as e:
            got, res = e, None
        except Exception as e:
            res = ops.Raised(e)
    if inj.fired:
        ctx.hit("fault:%s at %s" % (f["kind"], mode))
    return res, buf.getvalue(), (got if got is not None else (True if inj.fired else None))


def label(st):
    if "mut" in st:
        return "change of " + st["mut"]
    return st["new"] if "new" in st else st["m"]


def shrink(s):
    for i, st in enumerate(s["steps"]):
        put = lambda d: dict(s, steps=s["steps"][:i] + [d] + s["steps"][i + 1:])
        if st.get("fault"):
            d = dict(st)
            d.pop("fault")
            yield put(d)
    yield from ops.shrink_session(s)
    for i, st in enumerate(s["steps"]):
        put = lambda d: dict(s, steps=s["steps"][:i] + [d] + s["steps"][i + 1:])
        if st.get("fault"):
            for f in F.shrink_fault(st["fault"]):
                yield put(dict(st, fault=f))
