#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo statically"""
import os
import sys
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.project import AnalysisBroken
from sa.report import Report
from sa.runs import World
from sa import rules
from sa.rules import registry


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = os.environ.get("VERIF_REPO", "/repo")
    rep = Report(pid, tier, seed)
    fn, title, assumptions = registry.RULES[pid]
    rep.assumptions = list(assumptions)
    try:
        fn(World(repo), rep)
        if not rep.total:
            raise AnalysisBroken("no obligations were generated")
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        # what was found before the analysis had to give up is still true
        return 1 if rep.viol and rep.finish(title) == 1 else 2
    return rep.finish(title)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
