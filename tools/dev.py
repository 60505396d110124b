#!/opt/venv/bin/python
"""Development: run one obligation in-process.  dev.py C06 'eval N=2' [--dump seconds]"""
import sys, os, importlib, time, faulthandler
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE + '/lib', HERE + '/checks']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.pycache_prefix = '/opt/vp/nocache'
import warnings; warnings.simplefilter('ignore')
import numpy as np; np.seterr(all='ignore')
import harness
m = importlib.import_module(sys.argv[1].lower())
if '--dump' in sys.argv:
    faulthandler.dump_traceback_later(float(sys.argv[sys.argv.index('--dump') + 1]), exit=True)
for o in m.obligations(os.environ.get('VERIF_TIER', 'quick')):
    if sys.argv[2] in o.name:
        t = time.time()
        r = harness.explore(o, time.time() + o.seconds)
        inc, vio = r.pop('inconclusive'), r.pop('violations')
        print(r, round(time.time() - t, 2))
        for x in inc[:6]: print('INC', x)
        for x in vio[:3]: print('VIO', x['label'], x['by'], x['values'], *x['detail'][0])
