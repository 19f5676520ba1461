"""refactor_check.py CLONE [names...]: applies every behaviour-preserving edit of refactorings.py to a scratch clone of
/repo and runs the checks of the properties concerned: they have to stay quiet."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.refactorings import R
clone, want = sys.argv[1], [a for a in sys.argv[2:] if a != '--prove']
PROVE = '--prove' in sys.argv       # the prover only: lists what it does not decide


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


if not os.path.isdir(clone):
    sh('git clone -q /repo %s' % clone)
for name, f, edits, props in R:
    if want and name not in want:
        continue
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q; git -C %s reset -q --hard origin/HEAD' % (clone, clone, clone))
    p = os.path.join(clone, 'neuro_shooting', f)
    s = open(p).read()
    bad = False
    for o, n in edits:
        if s.count(o) != 1:
            print(name, 'EDIT', s.count(o), repr(o[:60]), flush=True)
            bad = True
            break
        s = s.replace(o, n)
    if bad:
        continue
    open(p, 'w').write(s)
    out = []
    for c in [c for c in props if not os.environ.get('ONLY') or c in os.environ['ONLY'].split()]:
        t0 = time.time()
        if PROVE:
            j = clone + '.%s.json' % c
            sh('/opt/venv/bin/python pyvc/prove.py %s quick %s' % (c, j), cwd=V, env=dict(os.environ, VP_REPO=clone, PYTHONPATH=clone, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1'))
            try:
                ob = json.load(open(j))['obligations']
            except Exception as e:
                ob = [dict(status='crash', name='', detail=str(e))]
            n = [o for o in ob if o['status'] != 'proved']
            out.append('%s %d/%d %ds%s' % (c, len(ob) - len(n), len(ob), time.time() - t0, ''.join('\n     %s %s -- %s' % (o['status'], o['name'][:60], o['detail'][:230].replace('\n', ' ')) for o in n[:2])))
            continue
        r = sh('python3 check.py %s' % c, cwd=V, env=dict(os.environ, VP_REPO=clone, VERIF_TIER='quick'))
        und = [l for l in r.stdout.split('\n') if 'undecided' in l]
        out.append('%s rc=%d %s%ds' % (c, r.returncode, '(undecided) ' if und else '', time.time() - t0))
        if r.returncode:
            out.append('   ' + ' | '.join(l[:300] for l in r.stdout.split('\n') if 'VIOLATION' in l or 'failed' in l or 'input' in l)[:900])
    print(name, '; '.join(out), flush=True)
sh('git -C %s checkout -q -- .' % clone)
