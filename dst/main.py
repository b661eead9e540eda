import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run only run number N and print its result")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    from dst import boot
    boot.boot()
    mod = importlib.import_module("dst.props." + a.property.lower())
    if hasattr(mod, "setup"):
        mod.setup()
    from dst import core
    os.environ.pop("VERIF_SCRATCH", None)
    core.scratch()
    if a.replay:
        return core.main_replay(mod, a.replay)
    if a.one is not None:
        import json
        s = core.scenario(mod, a.seed, a.one, a.tier)
        print(json.dumps(s)[:3000])
        print(json.dumps(core.run_one(mod, s), indent=1))
        return 0
    return core.main_check(mod, a.tier, a.seed, a.runs, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
