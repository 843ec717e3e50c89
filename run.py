#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]"""
import os, sys, importlib, traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, 'lib'), os.path.join(H, 'checks')]
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import core
from irload import AnalysisError

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    name = [f[:-3] for f in os.listdir(os.path.join(H, 'checks')) if f.lower().startswith(pid.lower() + '_')]
    if len(name) != 1: print('no check for', pid); return 2
    ctx = core.Ctx(pid, tier)
    try:
        m = importlib.import_module(name[0])
        m.check(ctx)
        return core.finish(ctx, m.META)
    except AnalysisError as e:
        print('ANALYSIS ERROR property=%s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS ERROR property=%s' % pid)
        return 3

sys.exit(main())
