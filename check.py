#!/opt/veriftools/pyvenv/bin/python
"""check.py <property>: decides one property on the current /repo tree (static analysis only)."""
import sys, os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
def main():
    import importlib, traceback
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    from registry import CHECKS
    from report import Rep
    from load import Broken, Missing
    mod, fn = CHECKS[pid]
    R = Rep(pid, tier, seed)
    try:
        getattr(importlib.import_module(mod), fn)(R)
        return R.finish()
    except Missing as e:
        R.ob('anchor found', 'undecided', str(e))
        return R.finish()
    except Broken as e:
        print('%s: cannot decide: %s' % (pid, e)); return 2
    except Exception:
        tb = traceback.format_exc()
        if os.environ.get('VERIF_VERBOSE'): print(tb[-1500:])
        R.ob('analysis completed', 'undecided', tb[-1500:])
        return R.finish()
rc = [3]
def t(): rc[0] = main()
th = threading.Thread(target=t); th.start(); th.join()
sys.stdout.flush()
os._exit(rc[0])
