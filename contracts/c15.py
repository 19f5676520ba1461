"""C15  experiment sweeps: full cartesian product, faithful command lines."""
import os, itertools, tempfile, types, copy, shutil, json
from collections import OrderedDict
from lib.rt import *


def cases(tier, rng):
    yield dict(kind='sweep', pars=[['a', [1, 2, 3]], ['b', ['x', 'y']]])
    yield dict(kind='sweep', pars=[['a', [1]], ['b', ['x', 'y']], ['c', [True, False]]])
    yield dict(kind='sweep', pars=[['z', [1, 2]], ['a', [[1, 2], [3]]]])
    yield dict(kind='sweep', pars=[])
    yield dict(kind='sweep', pars=[['a', []], ['b', [1]]])
    yield dict(kind='sweep', pars=[['b', [1]], ['a', []]])
    for t, a in (({'lr': .1}, {'verbose': True, 'x': 3}), ({'lr': .1, 'n': 2}, {'lr': .2, 'quiet': False}), ({}, {'a': None, 'b': 0, 'c': '', 'd': 1, 'e': 1.0}), ({'k': [1, 2]}, {})):
        yield dict(kind='merge', t=t, a=a)
    yield dict(kind='merge', t={'linear': None, 'lr': .1}, a={'linear': False})
    yield dict(kind='merge', t={'linear': None, 'lr': .1}, a={'linear': True})
    yield dict(kind='args', a=[['lr', .1], ['flag', None], ['n', 0], ['s', ''], ['q', False]])
    yield dict(kind='strings')
    # many settings, many values
    yield dict(kind='args', a=[['s%d' % i, None if i % 7 == 3 else i / 3] for i in range(60)])
    yield dict(kind='merge', t={'s%d' % i: i if i % 2 else None for i in range(0, 60, 2)}, a={'s%d' % i: [True, False, i, None, 'x', 0][i % 6] for i in range(0, 60, 3)})
    yield dict(kind='sweep', pars=[['a', list(range(40))], ['b', [1.5, 2.5]], ['c', ['u']]])
    yield dict(kind='sweep', pars=[['p%d' % i, [i, -i][:1 + i % 2]] for i in range(12)])
    yield dict(kind='run', pars=[['weight', [1e-5, 1e-6, 1.23456789, 1.23456788, 'a b', 0.1 + 0.2, 0.3]]], seeds=1, start=0, prefix='', fcn=True)
    for dev in (0, 1, None, 7, 8, 11, 123):
        for log in (None, 'out/run.log'):
            yield dict(kind='command', dev=dev, log=log)
    for nt in ('', 'pre_'):
        for fcn in (True, False):
            yield dict(kind='run', pars=[['nr_of_particles', [2, 4]], ['linear', [True, False]]], seeds=2, start=3, prefix=nt, fcn=fcn)
    yield dict(kind='run', pars=[['shooting_model', ['updown', 'simple']], ['fcn', ['cubic']]], seeds=1, start=0, prefix='', fcn=True)
    yield dict(kind='run', pars=[['nr_of_particles', [2]]], seeds=120, start=95, prefix='', fcn=True)
    n = ncases(tier, 30, 400)
    for j in range(n):
        ks = rng.sample(['alpha', 'b', 'c', 'lr', 'zz', 'K'], rng.randint(1, 4))
        yield dict(kind='sweep', pars=[[k, [rng.choice([1, 2.5, 'u', True, False, None]) for _ in range(rng.randint(1, 3))]] for k in ks], seed=j)
        yield dict(kind='merge', t={k: rng.choice([1, 2.5, 'u', None]) for k in rng.sample(ks, rng.randint(0, len(ks)))}, a={k: rng.choice([1, 0, 2.5, 'u', True, False, None]) for k in ks}, seed=j)
        yield dict(kind='args', a=[[k, rng.choice([1, 0, 2.5, 'u', True, False, None, ''])] for k in ks], seed=j)


def tuples(pars):
    return [list(zip([k for k, _ in pars], c)) for c in itertools.product(*[v for _, v in pars])]


def check_case(case):
    ce, eu = mod('command_line_execution_tools'), mod('experiment_utils')
    k = case['kind']
    if k == 'sweep':
        p = OrderedDict((a, copy.deepcopy(b)) for a, b in case['pars'])
        for rep in range(2):
            r = ce.recursively_sweep_parameters(pars_to_sweep=p)
            want = tuples(case['pars'])
            ensure([list(d.items()) for d in r] == want, 'sweep %d gives %s, expected %s', rep, short([list(d.items()) for d in r], 600), short(want, 600))
            ensure(list(p.items()) == [(a, b) for a, b in case['pars']], 'the parameters to sweep were modified')
            if r:
                r[0]['mutated'] = 1
                ensure(all('mutated' not in d for d in r[1:]), 'settings share their dictionary')
        # a sweep over other parameters afterwards is independent
        r = ce.recursively_sweep_parameters(pars_to_sweep=OrderedDict(other=[1, 2]))
        ensure([dict(d) for d in r] == [{'other': 1}, {'other': 2}], 'a following sweep gives %s', r)
    elif k == 'merge':
        t, a = copy.deepcopy(case['t']), copy.deepcopy(case['a'])
        m = eu.merge_args(t, a)
        want = dict(case['t'])
        for q, v in case['a'].items():
            if v is True:
                want[q] = None
            elif v is False:
                want.pop(q, None)
            else:
                want[q] = v
        ensure(dict(m) == want and all(type(m[q]) == type(want[q]) for q in want), 'merged %s, expected %s', m, want)
        ensure(t == case['t'] and a == case['a'], 'inputs modified')
        for q in t:
            if isinstance(t[q], list):
                ensure(m[q] is not t[q], 'template shared with the result')
    elif k == 'args':
        a = OrderedDict((q, v) for q, v in case['a'])
        r = ce._make_arg_list(a)
        want = []
        for q, v in case['a']:
            want += ['--' + q] + ([] if v is None else [str(v)])
        ensure(r == want, 'argument list %s, expected %s', r, want)
    elif k == 'command':
        got, old = [], os.system
        ce.os.system = lambda c: got.append(c) or 0
        try:
            ce.run_command_with_args(python_script='s.py', run_args=OrderedDict([('lr', .5), ('viz', None), ('name', 'abc'), ('n', 0)]), path_to_python='/usr/bin/py', cuda_visible_devices=case['dev'], log_file=case['log'])
        finally:
            ce.os.system = old
        ensure(len(got) == 1, '%d commands', len(got))
        w = got[0].replace('"', ' ').split()
        want = 'python s.py --lr 0.5 --viz --name abc --n 0'.split()
        ensure(any(w[i:i + len(want)] == want for i in range(len(w))), 'the command %s does not carry %s', got[0], ' '.join(want))
        ensure(('CUDA_VISIBLE_DEVICES=%s' % case['dev'] in w) == (case['dev'] is not None), 'device: %s', got[0])
        ensure('/usr/bin/py' in got[0] and (case['log'] is None or case['log'] in got[0]), 'interpreter or log missing: %s', got[0])
    elif k == 'strings':
        f = ce.get_bash_precommand
        for dv in (0, 1, 3, 7, 8, 9, 15, 16, 64, 100):
            ensure(f(dv, 'x').replace(' ', '') == 'x&&CUDA_VISIBLE_DEVICES=%d' % dv, 'precommand %r', f(dv, 'x'))
            ensure(f(dv, None).strip() == 'CUDA_VISIBLE_DEVICES=%d' % dv, 'precommand %r', f(dv, None))
        ensure(f(None, 'x').replace(' ', '') == 'x&&', 'precommand %r', f(None, 'x'))
        ensure(f(None, None).strip() == '', 'precommand %r', f(None, None))
        kv = ce.create_kv_string
        ensure(kv(OrderedDict()) == '' and kv(OrderedDict(a=1)) == 'a=1' and kv(OrderedDict([('b', 1), ('a', 'x'), ('c', 2.5)])) == 'b=1\\;a=x\\;c=2.5', 'key/value string %r', kv(OrderedDict([('b', 1), ('a', 'x'), ('c', 2.5)])))
        ac = ce.add_to_config_string
        ensure(ac(None, 'a=1;b=2') == 'a=1\\;b=2' and ac('', 'a') == 'a' and ac('x', None) == 'x' and ac('x', 'y;z') == 'x\\;y\\;z', 'config string')
        ensure(eu.create_experiment_name('n', OrderedDict([('b', 1), ('a', 'x')])) == 'n_b_1_a_x', 'experiment name')
        ensure(ce.get_string_argument_from_list(['a', 'b']).split() == ['a', 'b'], 'argument string')
    else:
        run(case, ce, eu)


def run(case, ce, eu):
    calls = []
    old = ce.run_command_with_args
    tmp = tempfile.mkdtemp(prefix='c15_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        ce.run_command_with_args = lambda *a, **kw: calls.append((a, kw))
        args = types.SimpleNamespace(starting_seed_id=case['start'], nr_of_seeds=case['seeds'], output_base_directory='res', gpu=0, path_to_python='/usr/bin/python', shooting_model='updown')
        if case['fcn']:
            args.fcn = 'cubic'
        tmpl = OrderedDict(viz=None, lr=.1)
        want = [(s, dict(c)) for s in range(case['start'], case['start'] + case['seeds']) for c in tuples(case['pars'])]
        def go(**more):
            calls.clear()
            eu.sweep_parameters(args, run_args_to_sweep=OrderedDict((a, list(b)) for a, b in case['pars']), run_args_template=tmpl, python_script='s.py', output_dir_prefix=case['prefix'], **more)
            return list(calls)
        c1 = go()
        ensure(len(c1) == len(want), '%d runs started, expected %d', len(c1), len(want))
        dirs = []
        todo = []
        for seed, comb in want:
            exp = dict(viz=None, lr=.1, seed=seed)
            for q, v in comb.items():
                if v is True:
                    exp[q] = None
                elif v is not False:
                    exp[q] = v
            todo.append(exp)
        for a, kw in c1:
            ra = dict(kw['run_args'])
            dirs.append(ra.pop('output_directory'))
            ensure(ra in todo, 'run arguments %s, still expected %s', ra, short(todo, 500))
            todo.remove(ra)
            ensure(os.path.isdir(dirs[-1]), 'output directory missing')
            ensure(dirs[-1].startswith(case['prefix'] + 'res' + os.sep), 'output directory %s', dirs[-1])
        ensure(len(set(dirs)) == len(dirs), 'two runs share their output directory')
        ensure(dict(tmpl) == dict(viz=None, lr=.1), 'template modified')
        # finished runs are skipped, unfinished ones are not
        open(os.path.join(dirs[0], 'm.pt'), 'w').close()
        c2 = go()
        ensure([kw['run_args']['output_directory'] for a, kw in c2] == dirs[1:], 'after finishing the first run the runs %s are started', [kw['run_args']['output_directory'] for a, kw in c2])
        # recomputing is forced: every run is started again, whatever is there already
        for d in dirs[1::2]:
            open(os.path.join(d, 'model.pt'), 'w').close()
        c3 = go(do_not_recompute=False)
        ensure([kw['run_args']['output_directory'] for a, kw in c3] == dirs, 'with forced recomputation %d of %d runs are started', len(c3), len(dirs))
        left = [d for d in dirs if not any(f.endswith('.pt') for f in os.listdir(d))]
        c4 = go(do_not_recompute=True)
        ensure([kw['run_args']['output_directory'] for a, kw in c4] == left, 'the runs %s are started, unfinished are %s', short([kw['run_args']['output_directory'] for a, kw in c4], 400), short(left, 400))
    finally:
        os.chdir(cwd)
        ce.run_command_with_args = old
        shutil.rmtree(tmp, ignore_errors=True)
