#!/usr/bin/env python3
"""run.py <ID>: decide one property on /repo's current tree (VERIF_TIER=quick|thorough)"""
import importlib
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
sys.path.insert(0, HERE)
from tiny import Tiny, Check, Missing, BuildError   # noqa: E402
import eng                                           # noqa: E402


def main(pid):
    # a path that never ends on changed code must not take the sandbox with it (per process; workers inherit it)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    C = Check(pid)
    mod = importlib.import_module(pid)
    C.level = getattr(mod, 'LEVEL', 'other')
    broken = None
    eng.DEADLINE[0] = time.time() + (700 if C.tier == 'quick' else 6000)


    def late(*a):
        raise eng.Limit('the time for one check')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(760 if C.tier == 'quick' else 7000)
    try:
        T = Tiny() if getattr(mod, 'NEEDS_IR', True) else None
        mod.run(T, C)
    except Missing as e:
        broken = 'the rule is anchored on %s, which the program does not have' % e
    except BuildError as e:
        broken = str(e)
    except eng.Limit as e:
        broken = 'analysis bound exceeded: %s' % e
    except Exception:
        broken = traceback.format_exc()
    signal.alarm(0)
    if broken:
        C.undecide(broken)
    floor = getattr(mod, 'FLOOR', 1)
    rc = C.finish(mod.RULE)
    if rc == 0 and (C.discharged < floor or (broken and C.discharged < floor)):
        print('%s: ANALYSIS BROKEN: %d obligations decided, at least %d expected' % (pid, C.discharged, floor))
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
