"""Imports the system under test behind the simulator's seams.

Order matters: dependencies first (with everything they initialise lazily), then the seams, then giddy,
so that nothing of giddy has run before a simulated run starts."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
G = {}          # modules of the system under test, by short name


def boot():
    if G:
        return G
    warnings.simplefilter("ignore")
    import numpy as np
    import scipy.stats  # noqa: F401
    import scipy.special  # noqa: F401
    import scipy.cluster  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.sparse.csgraph  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import scipy.spatial  # noqa: F401
    import libpysal
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import pandas  # noqa: F401
    import geopandas  # noqa: F401
    import seaborn as sns
    import mapclassify  # noqa: F401
    import quantecon  # noqa: F401
    import esda
    import esda.crand
    import esda.moran

    # seam: the generator inside esda's (here interpreted) kernel is its own, seeded with the number it
    # drew from numpy's global stream, as it is when the kernel is compiled
    def vec_permutations(max_card, n, k_replications, seed):
        rs = np.random.RandomState(seed)
        out = np.empty((k_replications, max_card), dtype=np.int64)
        for k in range(k_replications):
            out[k] = rs.choice(n - 1, size=max_card, replace=False)
        return out

    esda.crand.vec_permutations = vec_permutations
    esda.crand.boolean = bool

    # seam: figures are rendered when a check asks for it, not each time geopandas asks for a redraw when idle
    from matplotlib.backend_bases import FigureCanvasBase
    FigureCanvasBase.draw_idle = lambda self, *a, **k: None

    # let dependencies finish their lazy initialisation before any process is forked
    st = np.random.get_state()
    w = libpysal.weights.lat2W(3, 3)
    esda.Moran_Local(np.arange(9.0) % 4, w, permutations=9)
    fig, ax = plt.subplots()
    sns.heatmap(np.eye(2), annot=True, ax=ax, cmap="YlGnBu")
    fig.canvas.draw()
    fig = plt.figure()
    fig.add_subplot(111, projection="polar").scatter([1], [1], c=[1], cmap="YlGnBu")
    plt.close("all")
    quantecon.MarkovChain(np.array([[0.5, 0.5], [0.2, 0.8]])).stationary_distributions
    libpysal.weights.lag_categorical(w, np.arange(9) % 2, ties="tryself")
    np.random.set_state(st)

    from dst import sched
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from dst import procstate
    before, rs = procstate.take(), np.random.get_state()
    with sched.lock_seam():
        import giddy
        import giddy.components
        import giddy.directional
        import giddy.ergodic
        import giddy.markov
        import giddy.mobility
        import giddy.plotting
        import giddy.rank
        import giddy.sequence
        import giddy.util
    G["import_diff"] = procstate.diff(before, procstate.take())
    if any(not np.array_equal(a, b) for a, b in zip(rs, np.random.get_state())):
        G["import_diff"] = "the global random stream moved"
    here = os.path.realpath(os.path.dirname(giddy.__file__))
    want = os.path.realpath(os.path.join(REPO, "giddy"))
    if here != want:
        raise SystemExit("giddy comes from %s, not from %s" % (here, want))
    G["root"] = here + os.sep
    for m in ("components", "directional", "ergodic", "markov", "mobility", "plotting", "rank",
              "sequence", "util"):
        G[m] = getattr(giddy, m)
    G["giddy"] = giddy
    return G
