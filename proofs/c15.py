"""C15: parameter sweeps run every combination exactly once with the right arguments."""
from pyvc.prove import *
from proofs.common import *

C = 'command_line_execution_tools:'
E = 'experiment_utils:'


def combos(ls):
    return [[]] if not ls else [[v] + r for v in ls[0] for r in combos(ls[1:])]


def sweep(counts):
    def body(V):
        names = ['par_%s' % c for c in 'zab'[:len(counts)]]
        vals = [[V.real('v%d_%d' % (i, j)) for j in range(n)] for i, n in enumerate(counts)]
        pars = V.sdict([(k, PList(list(l))) for k, l in zip(names, vals)], 'OrderedDict')
        want = combos(vals)
        other = V.sdict([('other', PList([V.real('o1'), V.real('o2')]))], 'OrderedDict')
        for k in range(2):
            r = V.ex.force(V.call(C + 'recursively_sweep_parameters', pars_to_sweep=pars))
            V.eqint(r.length(), len(want), 'number of combinations')
            for d, w in zip(V.ex.iterate_concrete(r), want):
                es = V.entries(V.ex.force(d))
                V.true([k for k, _ in es] == names, 'every combination sets every parameter')
                for (k, v), x in zip(es, w):
                    V.true(simp(ext.zr(v) == x), 'values of the combination, first parameter slowest')
            es = V.entries(pars)
            V.true([k for k, _ in es] == names, 'input not modified')
            for (k, l), v in zip(es, vals):
                V.true([x.eq(y) for x, y in zip(V.ex.iterate_concrete(l), v)] == [True] * len(v) and V.ex.force(l).length() == len(v), 'input not modified')
            # a sweep in between
            V.call(C + 'recursively_sweep_parameters', other)
            V.call(C + 'recursively_sweep_parameters', pars_to_sweep=other)
    return body


for counts in ((), (1,), (3,), (0,), (2, 2), (1, 3), (2, 0), (2, 3, 2)):
    obligation('sweep: %s values' % ' x '.join(map(str, counts)), C + 'recursively_sweep_parameters', scope='all values; bounded: number of parameters and values')(sweep(counts))


@obligation('sweep: step (any number of values, any rest): one call for the rest per value, in order', C + 'recursively_sweep_parameters', scope='any number of values; the rest of the sweep by its contract (induction on the number of parameters)', helper=True)
def step(V):
    n = V.dim('n', 0)
    j = fresh_bound()
    F = z3.Function('el:val', z3.IntSort(), z3.RealSort())
    l = PList([])
    l.segs = [Seg(0, n, j, F(j))]
    a, b = V.real('a'), V.real('b')
    pars = V.sdict([('first', l), ('second', PList([a, b])), ('third', PList([a]))], 'OrderedDict')
    d0 = V.sdict([('zero', b)], 'OrderedDict')
    out = PList([])
    ghost = PList([])
    bad = []
    first = [True]
    top = V.define("def add(g, x):\n    g.append(x)\n")

    def rest(ex, p):
        if first[0]:
            first[0] = False
            return NotImplemented
        ks = [k for k, _ in V.entries(ex.force(p['pars_to_sweep']))]
        d = ex.force(p['par_dict'])
        if ks != ['second', 'third'] or ex.ctx.decide(simp(ext.zr(V.item(d, 'zero')) == b)) is not True:
            bad.append(ks)
        if ex.force(p['swept_parameter_list']) is not out:
            bad.append('another list')
        V.call(top['add'], ghost, V.item(d, 'first'))
        return p['swept_parameter_list']
    V.contract(C + 'recursively_sweep_parameters', rest)
    r = V.call(C + 'recursively_sweep_parameters', pars, d0, out)
    V.true(not bad, 'the rest is swept with the parameters so far and this value, into the same list')
    V.is_(r, out, 'result')
    V.eqint(ghost.length(), n, 'one sweep of the rest per value')
    i = V.int('i', 0, n)
    V.ex.ctx.index.append(i)
    V.true(simp(ext.zr(V.item(ghost, i)) == F(i)), 'in the order of the values')


@obligation('sweep: nothing left: one combination is added, a copy', C + 'recursively_sweep_parameters', scope='any list so far', helper=True)
def base(V):
    n = V.dim('n', 0)
    j = fresh_bound()
    F = z3.Function('el:old', z3.IntSort(), z3.RealSort())
    out = PList([])
    out.segs = [Seg(0, n, j, F(j))]
    a, b = V.real('a'), V.real('b')
    d = V.sdict([('first', a), ('second', b)], 'OrderedDict')
    r = V.call(C + 'recursively_sweep_parameters', V.sdict([], 'OrderedDict'), d, out)
    V.is_(r, out, 'result')
    V.eqint(out.length(), simp(n + 1), 'one more combination')
    x = V.ex.force(V.item(out, n))
    V.true(x is not d, 'a copy')
    es = V.entries(x)
    V.true([k for k, _ in es] == ['first', 'second'], 'the combination')
    for (k, v), w in zip(es, (a, b)):
        V.true(simp(ext.zr(v) == w), 'the combination')
    i = V.int('i', 0, n)
    V.ex.ctx.index.append(i)
    V.true(simp(ext.zr(V.item(out, i)) == F(i)), 'the combinations so far stay')


KINDS = ['text', 'number', 'count', 'none', 'on', 'off']


def value(V, kind, n):
    return dict(text=z3.Const('s%d' % n, KeySort), number=z3.Real('x%d' % n), count=z3.Int('k%d' % n), none=None, on=True, off=False)[kind]


def text(V, v):
    return ext.to_str(V.ex, v)


def eq(V, a, b, what):
    a, b = V.ex.force(a), V.ex.force(b)
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        V.true(a is b, what)
    else:
        V.true(ext.compare(V.ex, 'Eq', a, b), what)


def argl(kinds):
    def body(V):
        items = [('n%d' % i, value(V, k, i)) for i, k in enumerate(kinds)]
        args = V.sdict(items, 'OrderedDict')
        r = V.ex.iterate_concrete(V.call(C + '_make_arg_list', args))
        want = []
        for k, v in items:
            want += ['--' + k] + ([] if v is None else [text(V, v)])
        V.eqint(len(r), len(want), 'number of arguments')
        for x, w in zip(r, want):
            eq(V, x, w, 'arguments')
        V.true([k for k, _ in V.entries(args)] == [k for k, _ in items], 'settings not modified')
    return body


def merge(kinds):
    def body(V):
        add = [('m%d' % i, value(V, k, i)) for i, k in enumerate(kinds)]
        tm = [('t0', z3.Real('y0')), ('m0', z3.Real('y1')), ('t1', None), ('m1', None)]
        t, a = V.sdict(tm, 'OrderedDict'), V.sdict(add, 'OrderedDict')
        r = V.ex.force(V.call(E + 'merge_args', run_args_template=t, add_args=a))
        want = dict(tm)
        for k, v in add:
            if v is False:
                want.pop(k, None)
            else:
                want[k] = None if v is True else v
        es = dict(V.entries(r))
        V.true(sorted(es) == sorted(want), 'names of the settings')
        for k in want:
            eq(V, es[k], want[k], 'setting ' + k)
        for d, src, nm in ((t, tm, 'template'), (a, add, 'settings')):
            es = V.entries(d)
            V.true([k for k, _ in es] == [k for k, _ in src], nm + ' not modified')
            for (k, v), (_, w) in zip(es, src):
                eq(V, v, w, nm + ' not modified')
    return body


for k1 in KINDS:
    for k2 in KINDS:
        obligation('arguments: %s, %s' % (k1, k2), C + '_make_arg_list', scope='all values; bounded: two settings')(argl((k1, k2)))
        obligation('merge: %s, %s' % (k1, k2), E + 'merge_args', scope='all values; bounded: two settings and a template of four')(merge((k1, k2)))


PARS = [[], [('nr', [2, 4])], [('nr', [2, 4]), ('linear', [True, False])], [('shooting_model', ['updown', 'simple']), ('fcn', ['cubic', 'quadratic'])]]
ARGS = '''
class Args(object):
    pass
'''


def runs(pars, seeds, tmpl, fcn, again):
    def body(V):
        ex = V.ex
        st = dict(exists={}, made=[], pt={}, runs=[])

        def exists(ex, a, k):
            p = ex.force(a[0])
            if p in st['made']:
                return True
            if p not in st['exists']:
                st['exists'][p] = ex.branch(z3.Bool('exists:' + p)) if p == base else (ex.branch(z3.Bool('exists:some')) if st['exists'].get(base) else False)
            return st['exists'][p]

        def mkdir(ex, a, k):
            p = ex.force(a[0])
            if p in st['made'] or st['exists'].get(p):
                raise PyRaise(ExcVal('FileExistsError', (p,)))
            par = p.rpartition('/')[0]
            if par and par not in st['made'] and not st['exists'].get(par):
                raise PyRaise(ExcVal('FileNotFoundError', (p,)))
            st['made'].append(p)

        def glob_(ex, a, k):
            p = ex.force(a[0])
            d = p.rpartition('/')[0]
            if d not in st['pt']:
                # a directory made by this run is empty; at most the first existing one is open, the others alternate
                st['pt'][d] = False if d in st['made'] else (ex.branch(z3.Bool('done:first')) if not st['pt'] else len(st['pt']) % 2 == 0)
            return PList(['x.pt'] if st['pt'][d] else [])
        base = 'pre_res'
        V.external('os.path.exists', exists, 'whether the path is there')
        V.external('os.mkdir', mkdir, 'creates a directory')
        V.external('os.makedirs', lambda ex, a, k: mkdir(ex, a, k) if not (k.get('exist_ok') and exists(ex, a, {})) else None, 'creates a directory')
        V.external('glob.glob', glob_, 'the files that match')
        V.contract(C + 'run_command_with_args', lambda ex, p: st['runs'].append(p) or None)
        args = V.call(V.define(ARGS)['Args'])
        for k, v in dict(starting_seed_id=3, nr_of_seeds=seeds, output_base_directory='res', gpu=1, path_to_python='/usr/bin/python', shooting_model='updown').items():
            V.set(args, k, v)
        if fcn:
            V.set(args, 'fcn', 'cubic')
        t = V.sdict(tmpl, 'OrderedDict')
        V.call(E + 'sweep_parameters', args, run_args_to_sweep=V.sdict([(k, PList(list(v))) for k, v in pars], 'OrderedDict'), run_args_template=t, python_script='s.py', output_dir_prefix='pre_', do_not_recompute=not again)
        dirs = []
        got = [dict((k, ex.force(v)) for k, v in p.items()) for p in st['runs']]
        todo = []
        for s in range(3, 3 + seeds):
            for c in combos([v for _, v in pars]):
                w = dict(tmpl, seed=s)
                for (k, _), v in zip(pars, c):
                    if v is False:
                        w.pop(k, None)
                    else:
                        w[k] = None if v is True else v
                todo.append(w)
        seen = []
        for p in got:
            e = dict((k, ex.force(v)) for k, v in V.entries(p['run_args']))
            d = e.pop('output_directory')
            V.true(isinstance(d, str) and d.startswith(base + '/'), 'output below the base directory')
            dirs.append(d)
            V.true(d in st['made'] or st['exists'].get(d), 'output directory is there')
            V.true(p['python_script'] == 's.py' and p['path_to_python'] == '/usr/bin/python' and p['cuda_visible_devices'] == 1, 'script, interpreter, device')
            V.true(isinstance(p['log_file'], str) and p['log_file'].startswith(d + '/'), 'log of the run in its directory')
            V.true(e in todo, 'a combination of the sweep')
            seen.append(todo.index(e))
        V.true(len(set(dirs)) == len(dirs), 'an output directory of its own')
        V.true(len(set(seen)) == len(seen), 'no combination is run twice')
        skipped = [d for d, v in st['pt'].items() if v] if not again else []
        V.true(len(got) + len(skipped) == len(todo) and not set(skipped) & set(dirs), 'every combination is run unless its result is there')
        V.true(dict(V.entries(t)) == dict(tmpl), 'template not modified')
    return body


for i, pars in enumerate(PARS):
    for seeds in (0, 1, 2):
        for fcn in (True, False):
            for again in (False, True) if fcn else (False,):
                obligation('runs: sweep %d, %d seeds%s%s' % (i, seeds, '' if fcn else ', no function', ', forced' if again else ''), E + 'sweep_parameters', scope='every state of the directories; bounded: four sweeps, at most two seeds')(runs(pars, seeds, [('viz', None), ('lr', 3)] + ([('linear', None)] if i == 2 else []), fcn, again))


def command(dev, log):
    def body(V):
        got = []
        V.external('os.system', lambda ex, a, k: got.append(ex.force(a[0])) or 0, 'runs the command')
        args = V.sdict([('lr', 3), ('viz', None), ('name', 'abc'), ('n', 0)], 'OrderedDict')
        V.call(C + 'run_command_with_args', python_script='s.py', run_args=args, path_to_python='/usr/bin/py', cuda_visible_devices=dev, log_file=log)
        V.true(len(got) == 1 and isinstance(got[0], str), 'one command')
        w = got[0].replace('"', ' ').split()
        want = 'python s.py --lr 3 --viz --name abc --n 0'.split()
        V.true(any(w[i:i + len(want)] == want for i in range(len(w))), 'the script with every setting, switches without a value')
        V.true(('CUDA_VISIBLE_DEVICES=%s' % dev in w) == (dev is not None), 'on the device')
        V.true('/usr/bin/py' in got[0], 'with the interpreter')
        V.true(log is None or log in got[0], 'into the log')
    return body


for dev in (0, 1, None):
    for log in (None, 'out/run.log'):
        obligation('command: device %s, log %s' % (dev, log), C + 'run_command_with_args', scope='bounded: four settings')(command(dev, log))


def directories(fcn, there):
    def body(V):
        ex = V.ex
        got = []
        V.external('os.path.exists', lambda ex, a, k: there, 'whether the path is there')
        V.external('os.mkdir', lambda ex, a, k: None, 'creates a directory')
        V.external('os.makedirs', lambda ex, a, k: None, 'creates a directory')
        V.external('glob.glob', lambda ex, a, k: PList([]), 'the files that match')
        V.contract(C + 'run_command_with_args', lambda ex, p: got.append(dict(V.entries(ex.force(p['run_args'])))) or None)
        vals = [V.int('a', 0), V.int('b', 0)]
        V.assume(vals[0] != vals[1])
        seeds = [V.int('first seed', 0), V.int('another seed', 0)]
        V.assume(seeds[0] != seeds[1])
        for s in seeds:
            args = V.call(V.define(ARGS)['Args'])
            for k, v in dict(starting_seed_id=s, nr_of_seeds=1, output_base_directory='res', gpu=1, path_to_python='/usr/bin/python', shooting_model='updown').items():
                V.set(args, k, v)
            if fcn:
                V.set(args, 'fcn', 'cubic')
            V.call(E + 'sweep_parameters', args, run_args_to_sweep=V.sdict([('nr', PList(list(vals))), ('depth', PList(list(vals)))], 'OrderedDict'), run_args_template=V.sdict([('lr', 3)], 'OrderedDict'), python_script='s.py')
        V.eqint(len(got), 8, 'number of runs')
        for i, (s, v, w) in enumerate((s, v, w) for s in seeds for v in vals for w in vals):
            eq(V, got[i]['seed'], s, 'seed')
            eq(V, got[i]['nr'], v, 'swept value')
            eq(V, got[i]['depth'], w, 'swept value')
        for i in range(8):
            for j in range(i):
                e = ext.key_eq(ex, got[i]['output_directory'], got[j]['output_directory'])
                V.true(simp(z3.Not(e)) if not isinstance(e, bool) else not e, 'different combinations or seeds have different output directories')
    return body


for fcn in (True, False):
    for there in (True, False):
        obligation('directories: any seeds%s%s' % ('' if fcn else ', no function', ', present' if there else ''), E + 'sweep_parameters', scope='all seeds and whole-number values; bounded: two parameters with two values each')(directories(fcn, there))


# ---------------------------------------------------------------- any number of settings
class Turn(object):
    """rule for the loop over the settings: an iteration, whatever the list holds, appends to it the arguments of its setting and does nothing else"""

    def __init__(self, V, n):
        self.V, self.n, self.obj = V, n, None
        V.ex.for_inv = self

    def __call__(self, ex, lo, hi, body, fr):
        from pyvc import loops
        if not (is_z3(hi) and zi(hi).eq(self.n) and isinstance(lo, int) and lo == 0):
            r = loops.sym_for(ex, lo, hi, body, fr)
            ex.for_inv = self
            return r
        if not ex.branch(zi(hi) > 0):
            return None
        self.it = ex.fresh_int('it')
        ex.ctx.stack += [self.it >= 0, self.it < zi(hi)]
        ex.ctx.index.append(self.it)

        def run():
            n0 = Heap.ctr
            st0 = loops.state_of(ex, n0)
            body(self.it)
            st1 = loops.state_of(ex, n0)
            return [l for l in st1 if l[0] in ('list', 'dict', 'attr', 'glob', 'tens', 'flags') and not loops.same(st0.get(l), st1[l])]
        snap = loops.take(ex)
        ch = run()
        loops.put(ex, snap)
        if len(ch) != 1 or ch[0][0] != 'list':
            raise Unsupported('the loop over the settings changes something else')
        self.obj = [o for o in Heap.objs if o.oid == ch[0][1]][0]
        if self.obj.segs:
            raise Unsupported('something is in the list before the loop')
        prev, j = z3.Function('prev', z3.IntSort(), KeySort), z3.Int('prev!j')
        self.before = [Seg(0, self.V.dim('before', 0), j, prev(j))]
        self.obj.segs = list(self.before)
        if run() != ch:
            raise Unsupported('the loop over the settings changes something else')
        return None


@obligation('arguments: any number of settings', C + '_make_arg_list', scope='any number of settings with any names and values (every turn of the loop appends the arguments of its setting)', helper=True)
def _(V):
    n = V.dim('n', 0)
    j = z3.Int('set!j')
    key, txt = z3.Function('setting', z3.IntSort(), KeySort), z3.Function('text', z3.IntSort(), KeySort)
    none = z3.Function('isnone', z3.IntSort(), z3.BoolSort())
    V.ex.ctx.injective['setting'] = 0
    args = PDict('OrderedDict', [Grp(0, n, j, key(j), Opt(none(j), txt(j)))])
    ents = list(args.ents)
    c = Turn(V, n)
    r = V.ex.force(V.call(C + '_make_arg_list', args))
    V.ex.for_inv = None
    V.true(len(args.ents) == 1 and args.ents[0] is ents[0], 'settings not modified')
    if c.obj is None:
        V.eqint(V.call(V.define('def f(x):\n    return len(x)\n')['f'], r), 0, 'no settings, no arguments')
        return
    V.true(r is c.obj, 'the list that is filled is returned')
    V.true(bool(r.segs) and isinstance(r.segs[0], Seg) and r.segs[0] is c.before[0], 'earlier arguments stay')
    new = r.segs[1:]
    want = [SStr(['--', key(c.it)])] + ([] if V.ex.branch(none(c.it)) else [txt(c.it)])
    V.eqint(len(new), len(want), 'number of arguments')
    for x, w in zip(new, want):
        eq(V, x.v if isinstance(x, Item) else x, w, 'arguments')
