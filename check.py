#!/opt/venv/bin/python
"""check.py <property>            run the check of a property
check.py --replay <file>       run a recorded counterexample against the real code"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.pycache_prefix = '/opt/vp/nocache'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')


def main():
    import numpy as np
    np.seterr(all='ignore')
    import harness
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        mod = importlib.import_module(r['property'].lower())
        ob = [o for o in mod.obligations(r['tier']) if o.name == r['obligation']][0]
        s, d = harness.replay(ob, r['values'])
        print(s)
        for x in d if s == 'fail' else []:
            print('  ', *x)
        return 1 if s == 'fail' else 0
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    return harness.main(pid, mod.obligations(tier), getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
