#!/usr/bin/env python3
"""check.py CXX [--tier quick|thorough] [--replay FILE]

Decides one property on the current tree of /repo.
  A  pyvc: reads the source of /repo, generates the proof obligations of the contracts in proofs/cXX.py and
     discharges them (z3 / cvc5 / canonical forms); every obligation gets a status proved, refuted or undecided.
  B  the same contracts evaluated at run time on concrete calls of the real code (contracts/cXX.py): bounded stand-in
     for functions A cannot reach, and the oracle on which a refuted obligation is replayed.
exit 0: held; exit 1: VIOLATION line; exit 2: the check itself failed (nothing was decided)."""
import sys, os, json, subprocess, tempfile, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lib import mine
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPO = os.environ.get('VP_REPO', '/repo')


def load(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None


def known(prop):
    """open findings: list of substrings identifying the failing input"""
    out = []
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    except OSError:
        pass
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    replay = a[a.index('--replay') + 1] if '--replay' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg',
               CUDA_VISIBLE_DEVICES='', VP_REPO=REPO, VERIF_REPO=REPO, HOME=tmp, TMPDIR=tmp)
    try:
        return run(prop, tier, seed, replay, tmp, env, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, replay, tmp, env, t0):
    bout = os.path.join(tmp, 'b.json')
    aout = os.path.join(tmp, 'a.json')
    blim = 420 if tier == 'quick' else 3000
    alim = 600 if tier == 'quick' else 3000
    cwd = os.path.join(tmp, 'cwd')
    os.mkdir(cwd)
    if replay and not (load(replay) or {}).get('case'):
        replay = None           # a failed obligation without input: the proof is redone
    cmdb = [PY, os.path.join(HERE, 'lib', 'run_main.py'), prop, tier, str(seed), bout] + ([os.path.abspath(replay)] if replay else [])
    env['VP_B_BUDGET'] = str(blim - 60)
    pb = subprocess.Popen(cmdb, cwd=cwd, env=env, stdout=open(os.path.join(tmp, 'b.log'), 'w'), stderr=subprocess.STDOUT)
    pa = None
    if not replay and os.path.exists(os.path.join(HERE, 'proofs', prop.lower() + '.py')):
        cmda = [PY, os.path.join(HERE, 'pyvc', 'prove.py'), prop, tier, aout]
        env['VP_A_BUDGET'] = str(alim - 60)
        pa = subprocess.Popen(cmda, cwd=cwd, env=env, stdout=open(os.path.join(tmp, 'a.log'), 'w'), stderr=subprocess.STDOUT)
    wait(pb, blim, t0)
    if pa is not None:
        wait(pa, alim, t0)
    b = load(bout)
    A = load(aout)
    # code that differs from the committed baseline and is not proved again: the contracts are evaluated on more, larger
    # and mined inputs as well
    esc = []
    changed = None if replay else mine.changed(REPO)
    if changed and b:
        b['violated'] = counted(prop, b['violated'] + b.get('unusable', []), tmp, env, t0)
    if replay and b and not b['violated']:
        b['violated'] = b.get('unusable', [])
    if not replay and not (b or {}).get('violated') and not settled(prop, A) and relevant(prop, changed):
        t1 = time.time()
        for j in range(6):
            e = dict(env)
            e['VP_B_BUDGET'] = '80' if tier == 'quick' else '600'
            cw = os.path.join(tmp, 'cwd%d' % j)
            os.mkdir(cw)
            out = os.path.join(tmp, 'e%d.json' % j)
            esc.append((subprocess.Popen([PY, os.path.join(HERE, 'lib', 'run_main.py'), prop, 'escalate', str(seed * 1000 + 7 * j + 11), out], cwd=cw, env=e,
                                         stdout=open(os.path.join(tmp, 'e%d.log' % j), 'w'), stderr=subprocess.STDOUT), out))
        for p, out in esc:
            wait(p, 150 if tier == 'quick' else 700, t1)
    for p, out in esc:
        x = load(out)
        if x:
            b = b or dict(ok=0, skip=0, violated=[], harness=[], skips=[], samples=[], distinct=0, known=[])
            for k in ('ok', 'skip', 'distinct'):
                b[k] += x[k]
            if not b['violated']:
                b['violated'] = counted(prop, x['violated'] + x.get('unusable', []), tmp, env, t0)
            b['harness'] += x['harness']
    return decide(prop, tier, seed, replay, tmp, env, t0, A, b, pa is not None)


def counted(prop, vs, tmp, env, t0):
    """the violations that the baseline does not have; one is enough"""
    for v in vs[:8]:
        if time.time() - t0 > 840:
            return []
        if not pre_existing(prop, v, tmp, env):
            return [v]
    return []


def pre_existing(prop, v, tmp, env):
    """a widened random input that fails in the same way on the code the baseline was taken from says nothing about the
    change (rounding, overflow of an unstable flow, ...); it is not counted"""
    base = os.path.join(tmp, 'base')
    try:
        if not os.path.isdir(base):
            import zipfile
            with zipfile.ZipFile(os.path.join(HERE, 'lib', 'base_src.zip')) as z:
                z.extractall(base)
        case, out = os.path.join(tmp, 'pre.json'), os.path.join(tmp, 'pre_out.json')
        json.dump(v, open(case, 'w'))
        cw = os.path.join(tmp, 'pre_cwd')
        os.makedirs(cw, exist_ok=True)
        e = dict(env, VP_REPO=base, PYTHONPATH=base)
        if os.path.exists(out):
            os.remove(out)
        t1 = time.time()
        slow = 'does not return' in v['message']
        try:
            subprocess.run([PY, os.path.join(HERE, 'lib', 'run_main.py'), prop, 'quick', '1', out, case], cwd=cw, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired:
            return slow
        r = load(out)
        if r and (r['violated'] or r.get('unusable') or r.get('harness') or slow and time.time() - t1 > 15):
            print('%s: a widened input that fails on the baseline as well is not counted: %s' % (prop, json.dumps(v['case'])[:300]))
            return True
    except Exception:
        pass
    return False


LOCAL = {'C01': 'state_costate shooting_integrands', 'C02': 'state_costate', 'C03': 'state_costate', 'C04': 'state_costate overwrite_classes', 'C05': 'activation_functions', 'C09': 'generic_integrator',
         'C11': 'striding_block', 'C13': 'overwrite_classes', 'C15': 'command_line_execution experiment_utils', 'C16': 'custom_lr_scheduler', 'C20': 'validation_measures shooting_hooks'}
SIDE = 'command_line_execution experiment_utils custom_lr_scheduler validation_measures striding_block'


def relevant(prop, ch):
    if not ch:
        return False
    files = [f.split(':')[0] for f in ch['functions']]
    if prop in LOCAL:
        return any(f.startswith(x) for f in files for x in LOCAL[prop].split())
    return any(not any(f.startswith(x) for x in SIDE.split()) for f in files)


def settled(prop, A):
    """all obligations of a property that is decided by proof alone are discharged on the current tree"""
    lv = load(os.path.join(HERE, 'tools', 'levels.json')) or {}
    obs = (A or {}).get('obligations', [])
    return bool(lv.get(prop, {}).get('complete')) and bool(obs) and all(o['status'] == 'proved' for o in obs)


def wait(p, lim, t0):
    try:
        p.wait(timeout=max(1, lim - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()


def tail(p):
    try:
        return open(p).read()[-3000:]
    except OSError:
        return ''


def decide(prop, tier, seed, replay, tmp, env, t0, A, b, has_a):
    obs = (A or {}).get('obligations', [])
    refuted = [o for o in obs if o['status'] == 'refuted']
    proved = [o for o in obs if o['status'] == 'proved']
    undec = [o for o in obs if o['status'] not in ('refuted', 'proved')]
    viol = list((b or {}).get('violated', []))
    kn = known(prop)
    open_kn = []
    rest = []
    for v in viol:
        key = json.dumps(v['case'], sort_keys=True)
        hit = [k for k in kn if k.split(' :: ')[0] in key]
        (open_kn if hit else rest).append(v)
    for v in open_kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, json.dumps(v['case'], sort_keys=True)[:200]))
    rc = 0
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    if rest:
        v = rest[0]
        json.dump(dict(property=prop, case=v['case'], message=v['message'], refuted_obligations=refuted[:10],
                       replay_cmd='python3 check.py %s --replay %s' % (prop, rpath)), open(rpath, 'w'), indent=1)
        print('contract violated on the real code: %s' % v['message'][:1500])
        print('input: %s' % json.dumps(v['case'])[:1500])
        for o in refuted[:5]:
            print('failed obligation: %s (%s)' % (o['name'], o.get('function', '')))
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
        rc = 1
    elif refuted:
        json.dump(dict(property=prop, case=None, failed_obligations=refuted, verifier_output=(A or {}).get('log', '')), open(rpath, 'w'), indent=1)
        for o in refuted[:5]:
            print('failed obligation: %s (%s): %s' % (o['name'], o.get('function', ''), str(o.get('detail', ''))[:600]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
        rc = 1
    elif b is None and not proved:
        print('check could not run:\n%s\n%s' % (tail(os.path.join(tmp, 'b.log')), tail(os.path.join(tmp, 'a.log'))))
        return 2
    elif b is not None and not b['ok'] and not replay and not proved:
        print('no contract clause could be evaluated: %s %s' % (b.get('harness'), b.get('skips')))
        return 2
    if has_a and A is None:
        print('note: verifier gave no answer: %s' % tail(os.path.join(tmp, 'a.log')))
    for o in undec:
        print('undecided obligation (bounded stand-in used): %s: %s' % (o['name'], str(o.get('detail', ''))[:200]))
    if b and b.get('harness'):
        print('note: %d contract evaluations could not be carried out: %s' % (len(b['harness']), str(b['harness'][0])[:1500]))
    nb = len([o for o in proved if 'bounded' in o.get('scope', '')])
    print('%s: %d obligations, %d proved%s, %d refuted, %d undecided; %d contract evaluations on the real code' % (
        prop, len(obs), len(proved) - nb, ' and %d more within a stated bound' % nb if nb else '', len(refuted), len(undec), (b or {}).get('ok', 0)))
    selftests = {}
    if tier == 'thorough' and prop == 'C01' and not replay:
        selftests = self_tests()
        for k, v in selftests.items():
            print('verifier self-test %s: %s' % (k, v))
    if not replay:
        write_evidence(prop, tier, seed, t0, A, b, obs, proved, undec, rc, rest, refuted, selftests)
    return rc


def self_tests():
    """the verifier's own semantics against CPython and torch (thorough tier); a
    difference is a defect of the verifier and never a violation of the property."""
    out = {}
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    for t in ('selftest', 'langtest'):
        try:
            r = subprocess.run([py, os.path.join(HERE, 'tools', t + '.py')], cwd=HERE, env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            out[t] = 'exit %d: %s' % (r.returncode, (r.stdout.strip().splitlines() or [''])[-1][:200])
        except Exception as e:
            out[t] = 'not run: %s' % e
    return out


def write_evidence(prop, tier, seed, t0, A, b, obs, proved, undec, rc, rest, refuted, selftests=None):
    b = b or {}
    man = load(os.path.join(HERE, 'MANIFEST.json')) or {}
    level = 'exploration'
    for c in man.get('checks', []):
        if c['property'] == prop:
            level = c['level']
    ev = int(b.get('ok', 0)) + len(b.get('violated', []))
    bounded = lambda o: 'bounded' in o.get('scope', '')
    cov = dict(obligations=len([o for o in obs if not bounded(o)]), discharged=len([o for o in proved if not bounded(o)]),
               bounded_obligations=len([o for o in obs if bounded(o)]), bounded_discharged=len([o for o in proved if bounded(o)]),
               checker_cmd='python3 check.py %s --tier %s' % (prop, tier),
               trusted_base=(A or {}).get('trusted', []) or ['CPython, torch and the contract harness'],
               undecided=[dict(name=o['name'], why=str(o.get('detail', ''))[:300]) for o in undec],
               functions_under_contract=(A or {}).get('functions', []),
               by_backend=(A or {}).get('by_backend', {}),
               solver_time_s=(A or {}).get('solver_time', 0.0), solver_queries=(A or {}).get('queries', 0),
               obligation_names=[dict(name=o['name'], function=o.get('function', ''), status=o['status'], scope=o.get('scope', ''), backend=o.get('backend', ''), time_s=o.get('time', 0)) for o in obs],
               vacuity=(A or {}).get('vacuity', {}),
               evaluations=ev, distinct_nontrivial=int(b.get('distinct', 0)),
               rule='run-time evaluation of the contract on the real code (bounded stand-in): every case is a distinct call configuration with generated values; a case that only trips the harness is not counted',
               verifier_self_tests=selftests or {},
               samples=b.get('samples', [])[:5], skipped=b.get('skip', 0), not_carried_out=len(b.get('harness', [])))
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=(A or {}).get('assumptions', []) or ['run-time evaluation only: floating point results compared with tolerances'],
             wall_s=round(time.time() - t0, 2), violations=1 if rc else 0)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)


sys.exit(main())
