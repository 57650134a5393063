#!/usr/bin/env python3
"""usage: run.py PROPERTY  -- decide one property on the current sources"""
import importlib
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import common
import engine
from prog import AnalysisBroken

CHECKS = {
    "C01": "parsecheck", "C02": "parsecheck", "C03": "parsecheck", "C04": "parsecheck", "C05": "parsecheck", "C24": "parsecheck",
    "C06": "notation", "C07": "notation", "C08": "notation", "C09": "notation",
    "C10": "notation",
    "C12": "outcheck", "C21": "outcheck", "C22": "outcheck", "C13": "latt", "C14": "graph",
    "C11": "order", "C23": "pool",
    "C15": "dictcheck", "C25": "dictcheck", "C26": "desc", "C16": "builder", "C17": "builder", "C18": "cli",
}

LIMIT = 600


def late(signum, frame):
    raise engine.OutOfTime("the analysis ran out of time")


def main():
    pid = sys.argv[1]
    engine.Engine.deadline = time.time() + LIMIT
    # where one step takes that long, the deadline is not looked at
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT + 60)
    try:
        mod = importlib.import_module(CHECKS[pid])
        rep = mod.check(pid)
        sys.exit(common.finish(rep))
    except engine.NoFixpoint as e:
        rep = common.Report(pid, "not decided: the analysis did not come to an end")
        rep.unresolved("analysis", str(e))
        sys.exit(common.finish(rep))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s" % pid)
        sys.exit(3)


if __name__ == "__main__":
    main()
