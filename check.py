#!/usr/bin/env python3
"""check.py <property id>: run one check (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    from vp.model import Broken
    from vp.engine import Incomplete
    from vp.report import Report
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('vp.checks.' + pid.lower())
    rep = Report(pid, mod.RULE, tier, seed)
    try:
        return mod.run(rep)
    except (Broken, Incomplete) as e:
        if rep.viol:
            return rep.finish(0)
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        traceback.print_exc()
        return 2


rc = [2]


def go():
    try:
        rc[0] = main()
    except BaseException:
        traceback.print_exc()


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
sys.exit(rc[0])
