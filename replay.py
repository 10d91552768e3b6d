#!/usr/bin/env python3
"""Runs recorded inputs on the real, unmodified code of /repo (with its own interpreter).

  replay.py FILE        replays a violation and says what fails (exit 1 if it reproduces)
  replay.py --batch     JSON list of items on stdin, JSON list of results on stdout
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if __name__ == "__main__" and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") \
        and os.path.exists(VENV) and not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv(VENV, [VENV] + sys.argv)

import importlib
import json
import signal
import traceback
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from symx.api import Concrete, SkipCase, Violation, encode  # noqa: E402

LIMIT = 10


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run(item):
    """{"prop", "fn", "params", "values", "opts"} -> {"status", "label", "observed", ...}"""
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    m = importlib.import_module("props." + item["prop"])
    opts = item.get("opts") or {}
    api = Concrete(item["values"], tol=opts.get("tol", 1e-6))
    if opts.get("random"):
        api.install_random()
    if opts.get("plot"):
        api.install_plot()
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, LIMIT)         # processor time: other load does not count
    signal.setitimer(signal.ITIMER_REAL, 12 * LIMIT)
    res = {"label": "", "detail": ""}
    try:
        getattr(m, item["fn"])(api, **m.decode(item["params"]) if hasattr(m, "decode") else item["params"])
        res["status"] = "ok"
    except SkipCase:
        res["status"] = "skip"
    except Violation as e:
        res.update(status="violation", label=e.label, detail=e.detail)
    except Hang:
        res.update(status="violation", label="does not terminate")
    except RecursionError as e:
        res.update(status="violation", label="unbounded recursion")
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/pytimize/" in f.filename]
        res.update(status="violation", label=f"unexpected {type(e).__name__}",
                   detail=f"{e} at {where[-1].filename}:{where[-1].lineno}" if where else f"{e} (harness) {tb[-1].filename}:{tb[-1].lineno}")
        if not where:
            res["harness_error"] = True
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout.close()
        sys.stdout = out
    res["observed"] = api.observed
    res["labels"] = api.labels
    res["missing"] = api.skipped_inputs
    return res


def warm():
    """Loads what the code needs before any clock runs."""
    try:
        importlib.import_module("pytimize")
    except BaseException:
        pass    # the item's own run reports it


def main():
    warm()
    if sys.argv[1:] == ["--batch"]:
        items = json.load(sys.stdin)
        print(json.dumps([run(i) for i in items]))
        return 0
    with open(sys.argv[1]) as f:
        item = json.load(f)
    r = run(item)
    print(json.dumps({k: item[k] for k in ("prop", "fn", "params", "values")}, indent=1))
    print(r["status"], r["label"], r["detail"])
    return 1 if r["status"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
