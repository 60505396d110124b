#!/usr/bin/env python3
"""Development: try seeded bugs in a scratch copy of /repo.  seedtest.py [--nochecks] ID..."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests(d):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    x = os.path.join(d, 'junit.xml')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml', x, 'test'], cwd=d, env=env, capture_output=True)
    import xml.etree.ElementTree as E
    ok = set()
    for c in E.parse(x).getroot().iter('testcase'):
        if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    os.remove(x)
    return sorted(stable - ok)


args = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
for i in args:
    s = os.path.join(V, 'seeded', i)
    meta = json.load(open(s + '/meta.json'))
    d = tempfile.mkdtemp(prefix='seed')
    try:
        shutil.copytree(os.environ.get('VERIF_REPO', '/repo'), d + '/r', dirs_exist_ok=True)
        r = d + '/r'
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1')
        demo = lambda: subprocess.run(['bash', s + '/demo.sh'], cwd=r, env=env, capture_output=True, text=True)
        a = demo()
        g = subprocess.run(['git', 'apply', s + '/patch.diff'], cwd=r, capture_output=True, text=True)
        b = demo()
        t = tests(r)
        out = ''
        if '--nochecks' not in sys.argv:
            p = subprocess.run([V + '/check.py', meta['property']], cwd=V, env=dict(env, VERIF_REPO=r), capture_output=True, text=True)
            out = 'check rc=%d %s' % (p.returncode, ' | '.join(l for l in p.stdout.split('\n') if 'iolat' in l or 'INCON' in l or 'Trace' in l)[:600]) + p.stderr[-300:]
        print(i, meta['property'], 'apply', g.returncode, g.stderr.strip(), 'demo clean', a.returncode, a.stderr.strip()[-200:] if a.returncode else '', 'patched', b.returncode, '(%s)' % (b.stderr.strip().split('\n')[-1][:150]), 'tests failing', t, out, flush=True)
    finally:
        shutil.rmtree(d)
