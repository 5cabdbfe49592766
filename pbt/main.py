"""python main.py PID [--tier quick|thorough] [--replay FILE] [--only SUBSTRING] [--jobs N]"""
import argparse
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_path():
    os.environ["HYPOTHESIS_NO_PLUGINS"] = "1"
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/nonexistent/hypothesis")
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa
    import numpy  # noqa
    import sympy  # noqa
    sys.path.pop()
    sys.pycache_prefix = "/nonexistent/pycache"   # never trust bytecode lying next to the sources
    import FIAT
    assert os.path.realpath(FIAT.__file__).startswith(os.path.realpath(REPO) + "/"), FIAT.__file__


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    ap.add_argument("--limit", type=float)
    a = ap.parse_args()
    setup_path()
    import core
    module = importlib.import_module("checks." + a.pid.lower())
    if a.replay:
        return core.replay(a.pid, module, a.replay)
    limit = a.limit or (820 if a.tier == "quick" else None)
    return core.run_property(a.pid, module, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.jobs, a.only, limit)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
