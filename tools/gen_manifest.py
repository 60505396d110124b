#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E1 = 'symbolic execution of the real Python functions (symbolic reals/integers, path forking), z3 decides every assertion; counterexamples replayed on the unpatched code'
E2 = 'the real code builds a CasADi computation graph, the graph is interpreted over solver terms with right-hand sides as uninterpreted functions, z3 decides; counterexamples replayed'
E3 = 'the real structure code is executed with symbolic contents (and symbolic integer indices) against an independent layout model, z3 decides; counterexamples replayed'
TECH = {**{'C%02d' % k: E1 for k in range(1, 14)}, **{'C%02d' % k: E2 for k in range(14, 22)}, 'C20': E1, **{'C%02d' % k: E3 for k in range(22, 36)}, **{'C%02d' % k: E2 for k in range(36, 39)}}
NA = {}
NOTE = 'for all values within the bounds listed per obligation in the evidence file (coverage.obligations[].bounds); exact real arithmetic, floating-point rounding is outside; inconclusive obligations are listed, never counted as decided'

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd='./check.py ' + p, thorough_cmd='VERIF_TIER=thorough ./check.py ' + p, technique=TECH[p], level='model_checking', level_note=NOTE, evidence_file='evidence/%s.json' % p))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not written yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3, casadi, numpy"', checks=checks, not_applicable=na,
         notes='No hooks: the checks import the unmodified package from /repo. One entry point, check.py; ./check.py --replay <file> reruns a recorded counterexample.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
