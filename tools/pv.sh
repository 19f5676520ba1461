#!/bin/sh
# tools/pv.sh CXX [tier] [filter]: run the prover only and print the table
cd "$(dirname "$0")/.." && PYTHONPATH="${VP_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 /opt/venv/bin/python pyvc/prove.py "$1" "${2:-quick}" /tmp/pv_$1.json $3 2>/tmp/pv_$1.err && python3 - "$1" <<'PY'
import json,sys
d=json.load(open('/tmp/pv_%s.json'%sys.argv[1]))
for o in d['obligations']: print(o['status'].ljust(9),('%.1f'%o['time']).rjust(6),o['name'],'' if o['status']=='proved' else '-- '+o['detail'][:700])
print(d.get('wall'),d.get('by_backend'),len(d['obligations']),d['log'])
PY
