"""python3 -m mirlint.run <property> [quick|thorough]"""
import importlib
import os
import sys
import time
import traceback

from . import core, frontend, rules

MODULES = ["r_executor", "r_storage", "r_protocol", "r_network", "r_mempool", "r_consensus", "r_main", "r_api", "r_node", "r_locks"]


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("mirlint." + m)
        except ImportError as e:
            if ("mirlint." + m) in str(e):
                continue
            raise
        reg.update(mod.CHECKS)
    return reg


def main(argv):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    reg = registry()
    ids = sorted(reg) if pid == "all" else pid.split(",")
    crates = set()
    for i in ids:
        crates |= set(reg[i][1])
    try:
        dump = frontend.load(crates=crates)
    except frontend.FrontendError as e:
        print("front end: %s" % e)
        return 2
    db = core.DB(dump)
    rc = 0
    for i in ids:
        title, _, fn = reg[i]
        t1 = t0 if len(ids) == 1 else time.time()
        c = rules.Check(i, db, tier, seed)
        try:
            fn(c)
        except core.Anchor as e:
            c.ob("anchor", "program", str(e), False, "", "a construct the rule is anchored in is missing")
        except core.Budget as e:
            print("analysis budget exceeded: %s" % e)
            c.ob("budget", "program", str(e), False, "", "the flow graph exceeds the analysis budget")
        if os.environ.get("VERIF_DUMP"):
            for o in c.obls:
                print("   ", "ok " if o[3] else "BAD", o[:3], o[4], o[5])
        r = rules.finish(c, fn, title, t1)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv))
