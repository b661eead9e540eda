"""Process-wide state the library must leave alone."""
import atexit
import copyreg
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading

import numpy as np

# modules and classes of others whose attributes must not be exchanged (they may grow by lazy imports)
OTHERS = ["builtins", "threading", "warnings", "random", "os", "copy", "functools", "scipy.stats", "scipy.linalg", "scipy.special",
          "libpysal.weights", "libpysal.weights:W", "libpysal.weights.spatial_lag", "libpysal.weights.util", "esda", "esda.moran",
          "esda.moran:Moran_Local", "esda.crand", "matplotlib.pyplot", "matplotlib:rcParams", "matplotlib.axes:Axes",
          "matplotlib.figure:Figure", "seaborn", "mapclassify", "mapclassify:Quantiles", "quantecon", "quantecon:MarkovChain",
          "pandas", "pandas:DataFrame", "geopandas", "geopandas:GeoDataFrame", "numpy.linalg"]
# names their owners rebind themselves while they work
OWN = {("threading", "_shutdown_locks"), ("threading", "_dangling"), ("warnings", "filters"), ("warnings", "_filters_version"),
       ("warnings", "showwarning"), ("warnings", "_showwarnmsg_impl"), ("matplotlib.pyplot", "_backend_mod"), ("random", "_inst")}


def _others():
    out = {}
    for o in OTHERS:
        m, _, c = o.partition(":")
        if m not in sys.modules:
            continue
        x = sys.modules[m]
        if c:
            x = getattr(x, c)
        for k, v in list(getattr(x, "__dict__", {}).items()):
            if k.startswith("__") or (o, k) in OWN:
                continue
            out[o + "." + k] = id(v)
    return out


def take():
    import matplotlib as mpl
    import pandas as pd
    with mpl._api.suppress_matplotlib_deprecation_warning():
        rc = {k: repr(dict.__getitem__(mpl.rcParams, k)) for k in dict.keys(mpl.rcParams)}
    plt = sys.modules.get("matplotlib.pyplot")
    root = logging.getLogger()
    return {
        "rcParams": rc,
        "rcParamsDefault": {k: repr(dict.__getitem__(mpl.rcParamsDefault, k)) for k in dict.keys(mpl.rcParamsDefault)},
        "numpy floating point error handling": np.geterr(),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "numpy namespace": {k: id(v) for k, v in vars(np).items()},
        "numpy.random namespace": {k: id(v) for k, v in vars(np.random).items()},
        "numpy.random generator": {"generator": id(np.random.get_bit_generator())},
        "python random state": {"state": hash(random.getstate())},
        "interpreter": {"recursionlimit": sys.getrecursionlimit(), "cwd": os.getcwd(), "env": repr(sorted(os.environ.items())),
                        "switchinterval": sys.getswitchinterval(), "path": list(sys.path), "stdout": id(sys.stdout), "stderr": id(sys.stderr),
                        "excepthook": id(sys.excepthook), "displayhook": id(sys.displayhook), "gc enabled": gc.isenabled(),
                        "gc threshold": gc.get_threshold(), "threads": threading.active_count(), "locale": locale.setlocale(locale.LC_ALL),
                        "SIGINT": repr(signal.getsignal(signal.SIGINT)), "trace": repr(sys.gettrace()),
                        "profile": repr(sys.getprofile()), 
                        "thread hooks": repr((threading.gettrace(), threading.getprofile(), threading.excepthook)),
                        "alarm": repr(signal.getitimer(signal.ITIMER_REAL))},
        "logging": {"root level": root.level, "handlers": repr(root.handlers), "disabled": logging.root.manager.disable,
                    "matplotlib level": logging.getLogger("matplotlib").level},
        "pyplot": {"interactive": plt.isinteractive() if plt else None, "backend": mpl.get_backend()},
        "pandas options": {"all": repr(pd._config.config._global_config)},
        "others": _others(),
        "registered": {"functions to be called at exit": atexit._ncallbacks(), "gc callbacks": len(gc.callbacks),
                       "copiers": sorted(map(str, copyreg.dispatch_table))},
        "modules": frozenset(m for m in list(sys.modules) if m.partition(".")[0] != "giddy"),
    }


LAZY = {"numpy namespace": ("__warningregistry__",), "numpy.random namespace": ("__warningregistry__",)}


def diff(a, b):
    for k in a:
        x, y = a[k], b[k]
        if k == "modules" or (k == "registered" and a["modules"] != b["modules"]):
            continue      # (modules of others, loaded on first use, register what they need)
        if x == y:
            continue
        if isinstance(x, dict):
            for key in sorted(set(x) | set(y), key=str):
                if key in LAZY.get(k, ()) or (k == "others" and key not in x):
                    continue
                if x.get(key, "absent") != y.get(key, "absent"):
                    if "namespace" in k or k == "others":
                        return "%s: %s was %s" % (k, key, "added" if key not in x else "removed" if key not in y else "replaced")
                    return "%s: %s was %s, is %s" % (k, key, x.get(key, "absent"), y.get(key, "absent"))
        else:
            return "%s was %s, is %s" % (k, x, y)
    return None
