"""C08: the vector field matches the vector layout and moves data like particles."""
from proofs.common import *
from proofs.dod import *

SC = 'any number of (non-empty) blocks and entries'
GROUPS = ('state_dicts', 'costate_dicts', 'data_dicts')


def integrand(V, **k):
    stub_nl(V)
    return make(V, 'simple', Dims(V), **k)


TR = 'transpose_state_dict_of_dicts: contract'


def sizes(V):
    F = [z3.Function('sz%d' % i, II, II, II) for i in range(3)]
    for f in F:
        V.ex.ctx.axioms[f.name()] = lambda b, e, f=f: f(b, e) >= 1
        PS.nonneg_fns.add(f.name())
    return lambda b, e: [f(zi(b), zi(e)) for f in F]


@obligation(TR, 'transpose_state_dict_of_dicts, transpose_state', scope=SC + '; three-dimensional states', helper=True)
def _(V):
    m = integrand(V)
    d = D2(V, 'd', lead=sizes(V))
    check_same(V, V.m(m, 'transpose_state_dict_of_dicts', d.obj), d.map(lambda t: transposed(V, t), 'w'), 'transposed')


for tr in (False, True):
    for rg in (False, True):
        @obligation('forward: layout (%s, %s)' % ('transposed' if tr else 'as is', 'with gradients' if rg else 'no gradients'), 'forward, transpose_state, transpose_state_dict_of_dicts', scope=SC + ('; three-dimensional states' if tr else '; states of any shape'), uses=[TR], grad=rg)
        def _(V, tr=tr, rg=rg):
            m = integrand(V, transpose_state_when_forward=tr)
            lead = sizes(V) if tr else None
            ds = [D2(V, n, lead=lead) for n in ('s', 'c', 'x')]
            # derivatives: the same blocks with the same shapes (as the right hand side sees them), entries named differently
            outs = [D2(V, 'd' + d.name, like=d, lead=(lambda b, e: [lead(b, e)[i] for i in (0, 2, 1)]) if tr else None) for d in ds]
            for d in ds:
                d.plan = plan2(d)
            back = [o.map(lambda t: transposed(V, t), 'r' + o.name) for o in outs] if tr else []
            use_contracts(V, ds + outs + back)

            def trans(ex, a):
                x = ex.force(a['generic_dict_dict_of_dicts'])
                for o, r in zip(outs, back):
                    if x is o.obj:
                        return r.obj
                return NotImplemented
            V.contract('shooting_integrands:ShootingIntegrandBase.transpose_state_dict_of_dicts', trans)
            V.m(m, 'set_auto_assembly_plans', V.sdict([(k, d.plan) for d, k in zip(ds, GROUPS)], 'dict'))
            n = simp(sum(zi(size2(d)) for d in ds))
            v = V.tensor('v', [n], grad=rg)
            k0 = v.term.key()
            t = V.real('t')
            seen = []

            def cg(ex, a):
                off = 0
                V.true(ex.force(a['t']) is t, 'time')
                for d, k in zip(ds, ('state_dict_of_dicts', 'costate_dict_of_dicts', 'data_dict_of_dicts')):
                    check_pieces(V, a[k], d, v.term, off, 0, tr)
                    off = simp(zi(off) + zi(size2(d)))
                seen.append(1)
                return tuple(o.obj for o in outs) + (V.sdict([]),)
            V.contract('shooting_integrands:ShootingIntegrandBase.compute_gradients', cg)
            r = V.ex.force(V.m(m, 'forward', t, v))
            V.true(len(seen) == 1, 'evaluated once')
            V.shape(r, [n], 'as long as the input')
            V.true(v.term.key() == k0, 'input untouched')
            off = 0
            for d, o in zip(ds, outs):
                ns, ni = len(V.ex.ctx.stack), len(V.ex.ctx.index)
                b, e = d.generic('o')
                if tr:
                    q = transposed(V, o.ten(b, e))
                else:
                    q = o.ten(b, e)
                k = V.int('k' + d.name, 0, q.numel())
                pos = simp(zi(off) + zi(off2(d, b, e)) + k)
                V.eq(sigma.elem(r.term, [pos]), sigma.elem(vec1(q), [k]), 'the derivative of an entry sits where the entry sits')
                del V.ex.ctx.stack[ns:], V.ex.ctx.index[ni:]
                off = simp(zi(off) + zi(size2(d)))


# ---------------------------------------------------------------- the equations of every model
MS = 'all numbers of particles and data, in_features, inflation factors >= 1 (conv: image sizes >= 1, 3x3 filters); any elementwise nonlinearity; any non-zero weight; bounded: one block of states and data'


def close(V, got, want, keys, pre, what):
    got, want = V.entries(got), V.entries(want)
    V.true(len(got) == len(want) == len(keys), what + ': entries')
    for (k, u), (_, v) in zip(got, want):
        V.tensor_eq(u, v, '%s %s' % (what, k))


def one(V, d):
    return V.sdict([('k', d)])


def setup(V, name, **kw):
    stub_nl(V)
    D = Dims(V, CAT[name][1])
    w = V.real('w')
    V.assume(w != 0)
    m = make(V, name, D, w, **kw)
    mk = lambda tag: (state(V, name, D, tag=tag), state(V, name, D, pre='p_', tag=tag), state(V, name, D, n=V.dim('n' + tag), tag='x' + tag))
    return D, m, mk


def evaluate(V, m, t, q):
    r = V.ex.force(V.m(m, 'compute_gradients', t, *[one(V, d) for d in q]))
    V.true(isinstance(r, tuple) and len(r) == 4, 'four results')
    for d in r[:3]:
        V.true([k for k, _ in V.entries(d)] == ['k'], 'one block')
    return [V.entries(d)[0][1] for d in r[:3]] + [r[3]]


for nm in CAT:
    for ana in ((False, True) if CAT[nm][3] else (False,)):
        @obligation('compute_gradients[%s%s]: data move like particles' % (nm, ',analytic' if ana else ''), 'compute_gradients, compute_gradients_%s, rhs_advect_data_dict_of_dicts' % ('analytic' if ana else 'autodiff'), scope=MS)
        def _(V, nm=nm, ana=ana):
            D, m, mk = setup(V, nm, use_analytic_solution=ana)
            q = mk('a')
            t = tval(V, V.real('t'))
            ds, dc, dx, po = evaluate(V, m, t, q)
            close(V, ds, V.m(m, 'rhs_advect_state', t, q[0], po), CAT[nm][2], 'dot_', 'motion of the particles')
            close(V, dx, V.m(m, 'rhs_advect_state', t, q[2], po), CAT[nm][2], 'dot_', 'motion of the data under the same parameters')
            names = set(v.term.kw['name'] for _, v in V.entries(q[2]))
            for d in (ds, dc):
                for k, v in V.entries(d):
                    V.true(not (T.vars_of(v.term) & names), '%s does not depend on the data' % k)
            for d in q:
                for k, v in V.entries(d):
                    V.true(v.term.op == 'var' and v.term.kw['name'].endswith(k), 'input %s untouched' % k)

        if CAT[nm][1] == 'vec':
            @obligation('compute_gradients[%s%s]: data with a leading dimension move slice by slice like particles' % (nm, ',analytic' if ana else ''), 'compute_gradients, rhs_advect_data_dict_of_dicts', scope=MS, grad=False)
            def _(V, nm=nm, ana=ana):
                D, m, mk = setup(V, nm, use_analytic_solution=ana)
                q = mk('a')
                L, l = V.dim('L'), V.int('l', 0)
                V.assume(l < L)
                V.m(m, 'set_data_concatenation_dim', 3)
                x = V.sdict([(k, V.tensor('x' + k, [L] + list(sh), grad=True)) for k, sh in shapes(nm, D, V.dim('n')).items()])
                t = tval(V, V.real('t'))
                ds, dc, dx, po = evaluate(V, m, t, (q[0], q[1], x))
                sl = V.sdict([(k, V.item(v, l)) for k, v in V.entries(x)])
                close(V, V.sdict([(k, V.item(v, l)) for k, v in V.entries(dx)]), V.m(m, 'rhs_advect_state', t, sl, po), CAT[nm][2], 'dot_', 'motion of one slice')
                close(V, ds, V.m(m, 'rhs_advect_state', t, q[0], po), CAT[nm][2], 'dot_', 'motion of the particles')

        @obligation('compute_gradients[%s%s]: no history' % (nm, ',analytic' if ana else ''), 'compute_gradients, compute_gradients_%s' % ('analytic' if ana else 'autodiff'), scope=MS)
        def _(V, nm=nm, ana=ana):
            D, m, mk = setup(V, nm, use_analytic_solution=ana)
            a, b = mk('a'), mk('b')
            fresh = make(V, nm, D, V.real('w'), use_analytic_solution=ana)
            t, u = tval(V, V.real('t')), tval(V, V.real('u'))
            names = set(v.term.kw['name'] for d in a for _, v in V.entries(d))
            r0 = evaluate(V, m, u, a)
            keep = snap([('', k, v) for d in r0[:3] for k, v in V.entries(d)])
            r1 = evaluate(V, m, t, b)
            untouched(V, keep, 'earlier results')
            for d in r1[:3]:
                for k, v in V.entries(d):
                    V.true(not (T.vars_of(v.term) & names), '%s does not depend on the earlier evaluation' % k)
            if CAT[nm][1] == 'vec':
                r2 = evaluate(V, fresh, t, b)
                for x, y, what in zip(r1, r2, ('state', 'costate', 'data')):
                    close(V, x, y, CAT[nm][2], '', 'as evaluated by a fresh integrand: ' + what)

        @obligation('recurrent mode[%s%s]' % (nm, ',analytic' if ana else ''), 'compute_gradients, compute_reduced_lagrangian, reset', scope=MS)
        def _(V, nm=nm, ana=ana):
            D, m, mk = setup(V, nm, use_analytic_solution=ana, use_rnn_mode=True)
            a, b, c = mk('a'), mk('b'), mk('c')
            t, u = tval(V, V.real('t')), tval(V, V.real('u'))
            V.m(m, 'reset')
            po = evaluate(V, m, u, a)[3]
            keep = flatpars(V, po)
            for q in (b, c):
                r = evaluate(V, m, t, q)
                close(V, r[0], V.m(m, 'rhs_advect_state', t, q[0], po), CAT[nm][2], '', 'motion of the particles under the kept parameters')
                close(V, r[2], V.m(m, 'rhs_advect_state', t, q[2], po), CAT[nm][2], '', 'motion of the data under the kept parameters')
                same_list(V, flatpars(V, r[3]), keep, 'reported parameters are the kept ones')
                if not ana:
                    L = V.m(m, 'compute_lagrangian', t, one(V, q[0]), one(V, q[1]), po)[0]
                    vs = [v for _, v in V.entries(q[0])]
                    g = [V.ex.force(x) for x in T.autograd_grad(V.ex, [L, tuple(vs)], dict(create_graph=True, allow_unused=True))]
                    for (k, v), w in zip(V.entries(r[1]), g):
                        V.tensor_eq(v, T.ew(V.ex, 'mul', [num(D.N), w.term]), 'costates follow the Lagrangian with the kept parameters: ' + k)
            V.m(m, 'reset')
            r = evaluate(V, m, t, c)
            an = set(v.term.kw['name'] for d in a for _, v in V.entries(d))
            for d in r[:3]:
                for k, v in V.entries(d):
                    V.true(not (T.vars_of(v.term) & an), '%s is recomputed after the reset' % k)
            close(V, r[0], V.m(m, 'rhs_advect_state', t, c[0], r[3] if CAT[nm][1] == 'conv' else V.m(m, 'compute_parameters', t, one(V, c[0]), one(V, c[1]))), CAT[nm][2], '', 'parameters of the first evaluation after the reset')
