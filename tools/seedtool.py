"""helper to plant a bug: seedtool.py SPECFILE [ids...]
SPECFILE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo='python source', needs, what)].
Applies the edits in /repo, writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}, checks the demo on both trees, the
stable tests and the property's check, then restores /repo."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
SH = '''#!/bin/bash
# exit 0 if the property holds for the demonstrated input, nonzero otherwise; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
export PYTHONPATH="$(pwd)" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= HOME="$scratch"
cd "$scratch"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
"$py" "$here/demo.py" > out.txt 2>&1
rc=$?
tail -5 out.txt
cd /; rm -rf "$scratch"
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


for b in ns['BUGS']:
    if want and b['id'] not in want:
        continue
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    res = []
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo dirty'
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    res.append('demo clean rc=%d' % r0.returncode)
    try:
        for f, o, n in b['edits']:
            s = open(os.path.join(R, f)).read()
            if o.startswith('IDX2:'):  # the second occurrence
                o = o[5:]
                i = s.index(o, s.index(o) + 1)
                open(os.path.join(R, f), 'w').write(s[:i] + n + s[i + len(o):])
                continue
            assert s.count(o) == 1, (b['id'], f, s.count(o), o)
            open(os.path.join(R, f), 'w').write(s.replace(o, n))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        res.append('demo bug rc=%d' % r1.returncode)
        t = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        res.append('tests: ' + t.stdout.strip().split('\n')[-1])
        c = sh('python3 check.py %s' % b['property'], cwd=V)
        res.append('check rc=%d %s' % (c.returncode, [l for l in c.stdout.split('\n') if 'VIOLATION' in l]))
        ob = [l for l in c.stdout.split('\n') if 'failed obligation' in l]
        res.append('obligations: %s' % [l[:140] for l in ob[:3]])
    finally:
        sh('git -C /repo checkout -- .')
    ok = r0.returncode == 0 and r1.returncode != 0 and '42 passed, 0 failed' in t.stdout
    print(b['id'], 'VALID' if ok else 'INVALID', '; '.join(res), flush=True)
    if not ok:
        print('   ', r0.stdout[-300:], r1.stdout[-300:])
