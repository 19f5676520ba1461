"""C21: every model is consistent: states, derivatives and initial data agree."""
from proofs.common import *

INIT = {'updown': ['direct', 'linear', 'mini_nn'], 'universal': ['direct', 'linear', 'mini_nn'], 'general': ['direct', 'linear', 'mini_nn'], 'periodic': ['direct', 'linear', 'mini_nn'], 'updownconv': ['linear', 'mini_nn']}
SC = 'all numbers of samples, in_features, inflation factors >= 1 (conv: image sizes >= 1, 3x3 filters); any elementwise nonlinearity; any parameters'


def rhs(V, m, x, po, t):
    return V.m(m, 'rhs_advect_state', t, x, po)


def mk(name):
    cls, kind, keys, ana, infl = ALL[name]

    @obligation('derivatives[%s]: names and shapes, no explicit time, states untouched' % name, cls + '.rhs_advect_state, create_default_parameter_objects', scope=SC)
    def _(V):
        stub_nl(V)
        D = Dims(V, kind)
        n = V.dim('n')
        m = make(V, name, D)
        x = state(V, name, D, n=n, grad=False)
        po = params(V, m, 'P')
        for o, l in V.entries(po):
            V.true(ext.named_params(V.ex, l) == [], 'layer %s owns no parameters' % o)
        r = V.entries(rhs(V, m, x, po, V.real('t')))
        V.true([k for k, _ in r] == ['dot_' + k for k in keys], 'names of the derivatives')
        sh = shapes(name, D, n)
        for k, (_, v) in zip(keys, r):
            V.shape(v, sh[k], 'shape of the derivative of ' + k)
        q = V.entries(rhs(V, m, x, po, V.real('u')))
        for (k, a), (_, b) in zip(r, q):
            V.tensor_eq(a, b, k + ' does not depend on the time')
        for k, v in V.entries(x):
            V.true(v.term.op == 'var' and v.term.kw['name'] == k, 'state %s untouched' % k)

    @obligation('derivatives[%s]: affine in the parameters' % name, cls + '.rhs_advect_state', scope=SC)
    def _(V):
        stub_nl(V)
        D = Dims(V, kind)
        m = make(V, name, D)
        x = state(V, name, D, n=V.dim('n'), grad=False)
        p1, p2, p3 = params(V, m, 'P'), params(V, m, 'Q'), params(V, m, 'R')
        a = num(V.real('a'))
        for (o, l1), (_, l2), (_, l3) in zip(V.entries(p1), V.entries(p2), V.entries(p3)):
            d1, d2, d3 = [V.ex.force(V.m(l, 'get_parameter_dict')) for l in (l1, l2, l3)]
            for (k, u), (_, v) in zip(V.entries(d1), V.entries(d2)):
                w = T.ew(V.ex, 'add', [T.ew(V.ex, 'mul', [a, u.term]), T.ew(V.ex, 'mul', [sub(ONE, a), v.term])])
                ext.dict_set(V.ex, d3, k, PTensor(w))
        t = V.real('t')
        r1, r2, r3 = [V.entries(rhs(V, m, x, p, t)) for p in (p1, p2, p3)]
        for (k, u), (_, v), (_, w) in zip(r1, r2, r3):
            V.tensor_eq(w, T.ew(V.ex, 'add', [T.ew(V.ex, 'mul', [a, u.term]), T.ew(V.ex, 'mul', [sub(ONE, a), v.term])]), k + ' at a mixture is the mixture')

    @obligation('derivatives[%s]: samples are independent' % name, cls + '.rhs_advect_state', scope=SC)
    def _(V):
        stub_nl(V)
        D = Dims(V, kind)
        n = V.dim('n')
        m = make(V, name, D)
        x = state(V, name, D, n=n, grad=False)
        j = V.int('j', 0, n)
        one = V.sdict([(k, V.item(v, slice(j, simp(j + 1), None))) for k, v in V.entries(x)])
        po = params(V, m, 'P')
        t = V.real('t')
        r, q = V.entries(rhs(V, m, x, po, t)), V.entries(rhs(V, m, one, po, t))
        for (k, u), (_, v) in zip(r, q):
            V.tensor_eq(v, T.slice_term(V.ex, u.term, 0, slice(j, simp(j + 1), None)), k + ' of one sample')

    @obligation('states[%s]: names and shapes of the particles' % name, cls + '.create_initial_state_parameters', scope=SC)
    def _(V):
        stub_nl(V)
        D = Dims(V, kind)
        m = make(V, name, D)
        for z in (True, False):
            r = V.entries(V.m(m, 'create_initial_state_parameters', set_to_zero=z))
            V.true([k for k, _ in r] == keys, 'names of the states')
            for k, v in r:
                V.shape(v, shapes(name, D)[k], 'shape of state ' + k)

    for mode in [None] + INIT.get(name, []):
        for extra in ((0, 1, 2) if kind == 'vec' and name != 'dampened' else (0,)):
            @obligation('initial data[%s,%s%s]' % (name, mode or 'standard', ',%d extra dimensions' % extra if extra else ''), cls + '.get_initial_data_dict_from_data_tensor', scope=SC)
            def _(V, mode=mode, extra=extra):
                stub_nl(V)
                D = Dims(V, kind)
                kw = dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=mode) if mode else {}
                m = make(V, name, D, **kw)
                lead = [V.dim('T%d' % i) for i in range(extra)]
                n = V.dim('n')
                sh = shapes(name, D, n)
                x = V.tensor('x', lead + sh['q1'])
                d = V.entries(V.m(m, 'get_initial_data_dict_from_data_tensor', x))
                V.true([k for k, _ in d] == keys, 'names of the data')
                d = dict(d)
                for k in keys:
                    V.shape(d[k], lead + sh[k], 'shape of %s as for the particles' % k)
                V.tensor_eq(d['q1'], x, 'the input is the first state')
                if name == 'symm':
                    V.tensor_eq(d['q3'], x, 'third state')
                    dd = zi(D.d)
                    V.tensor_eq(d['q2'], (lead + sh['q2'], lambda *i: sigma.elem(x.term, list(i[:-1]) + [simp(i[-1] % dd)])), 'second state repeats the input')
                elif 'q2' in keys:
                    ps = ext.named_params(V.ex, V.ex.force(m))
                    if mode is None:
                        V.tensor_eq(d['q2'], (lead + sh['q2'], lambda *i: ZERO), 'the second state starts at zero')
                    else:
                        P = dict((k, v.term) for k, v in ps)
                        V.true(len(P) > 0 and all(v.flags.get('requires_grad') for k, v in ps), 'an optimised initial condition has parameters')
                        if mode == 'direct':
                            V.true(len(P) == 1, 'one initial condition')
                            q = list(P.values())[0]
                            r = len(q.lead)
                            V.tensor_eq(d['q2'], (lead + sh['q2'], lambda *i: sigma.elem(q, list(i)[-r:])), 'the initial condition is replicated')
                        else:
                            ref = predicted(V, m, x, mode, kind)
                            V.tensor_eq(d['q2'], ref, 'the initial condition is predicted from the input')
                        for k, v in ps:
                            V.true(k_dep(V, d['q2'], v), 'gradients reach ' + k)


def k_dep(V, t, p):
    return p.term.kw.get('name') in T.tdeps(t.term)


def predicted(V, m, x, mode, kind):
    """linear: one layer; mini_nn: two layers with the nonlinearity in between"""
    g = lambda n: V.ex.force(V.ex.getattr(m, n))
    if mode == 'linear':
        return V.call(g('simple_init'), x)
    return V.call(g('init_l2'), V.call(g('nl'), V.call(g('init_l1'), x)))


for nm in ALL:
    mk(nm)

for nm in INIT:
    @obligation('unknown initial condition mode[%s]' % nm, CAT[nm][0] + '.__init__', scope=SC)
    def _(V, nm=nm):
        stub_nl(V)
        D = Dims(V, CAT[nm][1])
        for mode in ('nosuch', 'direc', ''):
            V.raises(lambda: make(V, nm, D, optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=mode), 'unknown mode', ['ValueError'])
