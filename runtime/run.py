"""Usage: run.py PROP TIER SEED OUT.json BUDGET [section,...]"""
import importlib
import json
import os
import sys
import tempfile
import time
from time import time as _now
import shutil
import warnings
import logging

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main():
    prop, tier, seed, out, budget = sys.argv[1:6]
    only = sys.argv[6].split(",") if len(sys.argv) > 6 else None
    from common import Checker, StopRun

    logging.disable(logging.CRITICAL)
    t = _now()
    c = Checker(prop, tier, int(seed), float(budget), only)
    d = tempfile.mkdtemp(prefix="vp_run_")
    os.chdir(d)
    try:
        m = importlib.import_module(prop.lower())
        try:
            m.run(c)
        except StopRun:
            pass
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    import gama

    assert os.path.abspath(gama.__file__).startswith(os.path.abspath(REPO)), gama.__file__
    with open(out, "w") as fh:
        json.dump({"failures": c.failures, "cases": c.cases, "clauses": c.clauses,
                   "skipped": c.skipped, "seconds": _now() - t,
                   "exhausted_budget": _now() > c.deadline}, fh)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
