#!/bin/sh
# run checks and print the obligations
for c in "$@"; do VERIF_DEBUG=1 ./check.py $c; echo "rc=$?"; /opt/venv/bin/python -c "
import json
for o in json.load(open('evidence/$c.json'))['coverage']['obligations']:
  print('  ', *[o.get(k) for k in ('name','paths','assertions','queries','solver_s','wall_s','witnesses_replayed','reached','outside_bound','error') if k in o])"; done
