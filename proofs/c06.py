"""C06: Lagrangian, stationary parameters, costate equation."""
import z3
from proofs.common import *

SC = 'all numbers of particles, in_features, inflation factors >= 1 (conv: image sizes >= 1, 3x3 filters); any differentiable elementwise nonlinearity; any non-zero weight'


def scale(V, c, t):
    return T.ew(V.ex, 'mul', [num(c) if not isinstance(c, Expr) else c, t.term if hasattr(t, 'term') else t])


def weight(V, l, k):
    """weight of parameter k of layer l: the entry of the layer's weight dictionary, one if there is none"""
    d = dict(V.entries(V.m(l, 'get_parameter_weight_dict')))
    w = d.get(k)
    return None if w is None else V.ex.force(w)


def layers(V, po):
    for o, l in V.entries(po):
        for k, p in V.entries(V.m(l, 'get_parameter_dict')):
            yield o, l, k, p


def kinetic(V, po):
    """half the weighted sum of squares over all parameters"""
    s = num(0)
    for o, l, k, p in layers(V, po):
        e = total(V, T.ew(V.ex, 'mul', [p.term, p.term]))
        w = weight(V, l, k)
        if w is not None:
            e = scale(V, real_of(V, w), e)
        s = T.ew(V.ex, 'add', [s, e])
    return scale(V, num(Fraction(1, 2)), s)


def real_of(V, w):
    if isinstance(w, PTensor):
        return sigma.elem(w.term, [])
    return num(w)


def total(V, t):
    """sum of all entries"""
    return T.reduce_sum(V.ex, t, list(range(t.nidx())))


def pairing(V, dot, c, N):
    """costates paired with the state equation, averaged over the particles"""
    s = num(0)
    for (k, a), (kk, b) in zip(V.entries(dot), V.entries(c)):
        s = T.ew(V.ex, 'add', [s, total(V, T.ew(V.ex, 'mul', [a.term, b.term]))])
    return scale(V, inv(num(N)), s)


def scalar(V, t, e, what):
    V.tensor_eq(t, PTensor(e), what)


def tsub(V, a, b):
    return T.ew(V.ex, 'sub', [a, b])


def fixed_parameters(V, m, t, ss, cc):
    """contract of compute_parameters (discharged above: the parameters are determined by states and costates): the same at every call"""
    ps = V.m(m, 'compute_parameters', t, ss, cc)
    if not V.inline:
        V.ex.assumptions.add('callee contract: compute_parameters is a function of its arguments (discharged: it is the stationary point)')
        f = V.ex.force(V.ex.getattr(m, 'compute_parameters'))
        def g(ex, a):
            tt = ex.force(a['t'])
            same = tt is t or (isinstance(tt, z3.ExprRef) and isinstance(t, z3.ExprRef) and tt.eq(t))
            return ps if same and ex.force(a['state_dict_of_dicts']) is ss and ex.force(a['costate_dict_of_dicts']) is cc else NotImplemented
        V.contract(':'.join(f.func.qual().rsplit('.', 3)[-3:-2]) + ':' + '.'.join(f.func.qual().rsplit('.', 2)[-2:]), g)
    return ps


TIMED = '''
import torch
import neuro_shooting.shooting_models as sm
from sortedcontainers import SortedDict
class Timed(sm.%s):
    def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
        s = state_dict_or_dict_of_dicts
        p = parameter_objects
        rhs = SortedDict()
        %s
        return rhs
'''
# models a user derives: the state equation depends on time explicitly
USER = {'updown': ["rhs['dot_q1'] = (1.0 + t * t) * p['l1'](input=self.nl(s['q2']))", "rhs['dot_q2'] = p['l2'](input=s['q1']) + t * s['q2']"],
        'simple': ["rhs['dot_q1'] = p['l1'](input=t * self.nl(s['q1'])) - t * s['q1']"]}


def mk(name, w, user=False):
    cls, kind, keys, ana, infl = CAT[name]
    lab = '%s%s,%s' % (name, ' (derived, time-dependent)' if user else '', 'weight' if w else 'no weight')

    def setup(V):
        stub_nl(V)
        D = Dims(V, kind)
        wt = None
        if w:
            wt = V.real('w')
            V.assume(wt != 0)
        m = make(V, name, D, wt, **(dict(derived=V.define(TIMED % (cls, '\n        '.join(USER[name])))['Timed']) if user else {}))
        s, c = state(V, name, D), state(V, name, D, pre='p_')
        return D, m, s, c, V.sdict([('k', s)]), V.sdict([('k', c)]), V.real('t')

    @obligation('compute_lagrangian[%s]' % lab, 'compute_lagrangian, compute_kinetic_energy, compute_potential_energy, rhs_advect_state_dict_of_dicts', scope=SC)
    def _(V):
        D, m, s, c, ss, cc, t = setup(V)
        po = params(V, m, 'P', grad=True)
        L, K, U = V.m(m, 'compute_lagrangian', t, ss, cc, po)
        k = kinetic(V, po)
        u = pairing(V, V.m(m, 'rhs_advect_state', t, s, po), c, D.N)
        scalar(V, K, k, 'kinetic energy')
        scalar(V, U, u, 'potential energy')
        scalar(V, L, tsub(V, k, u), 'Lagrangian')

    @obligation('compute_parameters[%s]: stationary' % lab, 'compute_parameters, compute_parameters_directly, divide_and_store_in_parameter_objects', scope=SC)
    def _(V):
        D, m, s, c, ss, cc, t = setup(V)
        po = params(V, m, 'P', grad=True)
        u = V.m(m, 'compute_potential_energy', t, ss, cc, po)
        got = dict(((o, k), (l, p)) for o, l, k, p in layers(V, V.m(m, 'compute_parameters', t, ss, cc)))
        ref = list(layers(V, po))
        V.true(sorted(got) == sorted((o, k) for o, l, k, p in ref), 'names of the parameters')
        gr = grad(V, u, [p for o, l, k, p in ref])
        for (o, l, k, p), g in zip(ref, gr):
            q = got[(o, k)][1].term
            wk = weight(V, l, k)
            if wk is not None:
                q = scale(V, real_of(V, wk), q)
            V.tensor_eq(PTensor(q), g, 'kinetic = potential gradient for %s.%s' % (o, k))

    @obligation('rhs_advect_costate_reduced[%s]' % lab, 'rhs_advect_costate_reduced_dict_of_dicts, compute_reduced_lagrangian', scope=SC)
    def _(V):
        D, m, s, c, ss, cc, t = setup(V)
        ps = fixed_parameters(V, m, t, ss, cc)
        k, u = kinetic(V, ps), pairing(V, V.m(m, 'rhs_advect_state', t, s, ps), c, D.N)
        n = num(D.N)
        L, K, U = V.m(m, 'compute_reduced_lagrangian', t, ss, cc)
        scalar(V, K, scale(V, n, k), 'reduced kinetic energy')
        scalar(V, U, scale(V, n, u), 'reduced potential energy')
        scalar(V, L, scale(V, n, tsub(V, k, u)), 'reduced Lagrangian')
        got = V.entries(V.m(m, 'rhs_advect_costate_reduced_dict_of_dicts', t, ss, cc))
        V.true([b for b, _ in got] == ['k'], 'blocks')
        got = V.entries(got[0][1])
        V.true([q for q, _ in got] == ['dot_p_' + q for q in keys], 'names')
        Lr = V.m(m, 'compute_lagrangian', t, ss, cc, ps)[0]
        gr = grad(V, Lr, [v for _, v in V.entries(s)])
        for (q, v), g in zip(got, gr):
            V.tensor_eq(v, scale(V, D.N, g), 'costate derivative ' + q)


def grad(V, u, xs):
    """what differentiating u with respect to the tensors xs gives"""
    r = T.autograd_grad(V.ex, [u, tuple(xs)], dict(create_graph=True, allow_unused=True))
    return [V.ex.force(x) for x in r]


for nm in CAT:
    for w in (False, True):
        mk(nm, w)
for nm in USER:
    mk(nm, True, True)


# ---------------------------------------------------------------- any number of layers and parameters
from proofs.dod import D1, D2, II  # noqa


def objects(V, d, wkind):
    """layers d: entry b is a layer whose parameters are block b; weights: one number per parameter, None for each, or no entry"""
    cls = V.get('overwrite_classes:RemoveParameters')
    wf = z3.Function('wt', II, II, z3.RealSort())
    if wkind == 'none':
        V_ = None
    else:
        V_ = wf(d.b, d.e)
    wd = PDict('SortedDict', [] if wkind == 'missing' else [Grp(0, d.E(d.b), d.e, d.ek(d.b, d.e), V_)])
    Heap.objs.remove(wd)
    o = PInst(cls, {'_parameter_dict': FamRef(d.fam, [d.b]), '_parameter_weight_dict': FamRef(Fam(wd, [d.b]), [d.b]), '_weight': None})
    Heap.objs.remove(o)
    return PDict('SortedDict', [Grp(0, d.B, d.b, d.bk(d.b), FamRef(Fam(o, [d.b]), [d.b]))]), wf


def integrand(V):
    stub_nl(V)
    return make(V, 'simple', Dims(V))


for wk in ('number', 'none', 'missing'):
    @obligation('compute_kinetic_energy: any layers (weights: %s)' % wk, 'compute_kinetic_energy', scope='any number of layers and parameters of any shape')
    def _(V, wk=wk):
        m = integrand(V)
        d = D2(V, 'd', lo=0, elo=0)
        po, wf = objects(V, d, wk)
        r = V.ex.force(V.m(m, 'compute_kinetic_energy', V.real('t'), po))
        b, e = fresh_bound(), fresh_bound()
        t = d.ten(b, e)
        i = fresh_bound()
        x = sigma.elem(t, [i])
        body = esum(i, t.tail.numel(), mul(x, x))
        if wk == 'number':
            body = mul(num(wf(b, e)), body)
        want = mul(num(Fraction(1, 2)), esum(b, d.B, esum(e, d.E(b), body)))
        if isinstance(r, PTensor):
            scalar(V, r, tfull(want, []), 'half the weighted sum of the squares')
        else:
            V.eq(num(r), want, 'half the weighted sum of the squares')


@obligation('compute_potential_energy: any blocks', 'compute_potential_energy', scope='any number of blocks, states and particles; any state equation (callee contract of rhs_advect_state_dict_of_dicts: same blocks, entries and shapes)')
def _(V):
    m = integrand(V)
    N = V.dim('NN')
    F = z3.Function('F', II, II, II)
    V.ex.ctx.axioms['F'] = lambda b, e: F(b, e) >= 1
    PS.nonneg_fns.add('F')
    c = D2(V, 'c', lo=0, elo=0, lead=lambda b, e: [N, 1, F(zi(b), zi(e))])
    r = D2(V, 'r', like=c)
    q = D2(V, 'q', like=c)
    t, po = V.real('t'), V.sdict([])

    def rhs(ex, a):
        V.true(ex.force(a['state_dict_of_dicts']) is q.obj, 'state equation is evaluated at the state')
        V.true(ex.force(a['parameter_objects']) is po, 'with the parameters')
        V.true(ex.force(a['concatenation_dim']) == 2, 'joined along the feature dimension')
        return r.obj
    V.contract('shooting_integrands:ShootingIntegrandBase.rhs_advect_state_dict_of_dicts', rhs)
    u = V.ex.force(V.m(m, 'compute_potential_energy', t, q.obj, c.obj, po))
    b, e, i, j = fresh_bound(), fresh_bound(), fresh_bound(), fresh_bound()
    x = lambda d: sigma.elem(d.ten(b, e), [i, z3.IntVal(0), j])
    want = mul(inv(num(N)), esum(b, c.B, esum(e, c.E(b), esum(i, N, esum(j, F(b, e), mul(x(c), x(r)))))))
    if isinstance(u, PTensor):
        scalar(V, u, tfull(want, []), 'costates paired with the state equation')
    else:
        V.eq(num(u), want, 'costates paired with the state equation')


def layer(V, d, wkind):
    """layer with any number of parameters d; weights: one number per parameter, None for each, or no entry"""
    cls = V.get('overwrite_classes:RemoveParameters')
    wf = z3.Function('wt_' + d.name, II, z3.RealSort())
    V.ex.ctx.axioms[wf.name()] = lambda e: wf(e) != 0
    e = z3.Int(d.name + '!we')
    wd = PDict('SortedDict', [] if wkind == 'missing' else [Grp(0, d.E, e, d.ek(e), None if wkind == 'none' else wf(e))])
    return PInst(cls, {'_parameter_dict': d.obj, '_parameter_weight_dict': wd, '_weight': None}), wf


def stored(kinds, what):
    lab = ', '.join(kinds)

    @obligation('%s: %d layers (weights: %s)' % (what, len(kinds), lab), what, scope='%d layers (bounded) with any number of parameters of any shape; non-zero weights; any factor' % len(kinds))
    def _(V):
        m = integrand(V)
        ds, gs, ls, ws = [], [], [], []
        for n, k in enumerate(kinds):
            d = D1(V, 'd%d' % n)
            g = D1(V, 'g%d' % n, E=d.E)
            g.S = d.S
            g.obj = PDict('SortedDict', [Grp(0, d.E, z3.Int('g!e'), g.ek(z3.Int('g!e')), g.ten(z3.Int('g!e')))])
            l, w = layer(V, d, k)
            ds.append(d); gs.append(g); ls.append(l); ws.append(w)
        po = V.sdict([('l%d' % i, l) for i, l in enumerate(ls)])
        gd = V.sdict([('l%d' % i, g.obj) for i, g in enumerate(gs)])
        a = V.real('a')
        if what == 'add_multiple_to_parameter_objects':
            V.m(m, what, po, gd, multiplier=a)
        else:
            r = V.ex.force(V.m(m, what, po, gd))
            V.true(r is po, 'returns the layers')
        for n, (d, g, w, k) in enumerate(zip(ds, gs, ws, kinds)):
            p = V.ex.force(V.m(V.item(po, 'l%d' % n), 'get_parameter_dict'))
            V.eqint(ext.dict_len(V.ex, p), d.E, 'number of parameters')
            if V.ex.branch(simp(zi(d.E) > 0)):
                e = V.int('ge%d' % n, 0, d.E)
                V.ex.ctx.index.append(e)
                if what == 'add_multiple_to_parameter_objects':
                    want = T.ew(V.ex, 'add', [d.ten(e), T.ew(V.ex, 'mul', [num(a), g.ten(e)])])
                elif k == 'number':
                    want = T.ew(V.ex, 'mul', [inv(num(w(e))), g.ten(e)])
                else:
                    want = g.ten(e)
                V.tensor_eq(V.item(p, d.ek(e)), want, 'parameter of layer %d' % n)


for kinds in (['number'], ['none'], ['missing'], ['number', 'none'], ['missing', 'number']):
    stored(kinds, 'divide_and_store_in_parameter_objects')
for kinds in (['none'], ['number', 'none']):
    stored(kinds, 'add_multiple_to_parameter_objects')


# ---------------------------------------------------------------- several blocks
def blocks(V, tag, B, keys, dim, sizes, pre='', grad=True):
    """B blocks with entries keys that differ in size along dimension dim only"""
    out = []
    for b in range(B):
        ents = []
        for k in keys:
            sh = list(sizes[k])
            sh[dim] = V.dim('f%d_%s' % (b, k))
            ents.append((pre + k, V.tensor('%s%d_%s' % (tag, b, k), sh, grad=grad)))
        out.append(('b%d' % b, V.sdict(ents)))
    return V.sdict(out)


for kind, cls in (('updown', 'vec'), ('conv', 'conv')):
    for B in (1, 2, 3):
        for cdim in ((1, 2) if cls == 'vec' else (1,)):
            @obligation('rhs_advect_state_dict_of_dicts[%s]: %d blocks, dimension %d' % (cls, B, cdim), 'rhs_advect_state_dict_of_dicts', scope='%d blocks of any sizes (bounded); any state equation' % B)
            def _(V, kind=kind, cls=cls, B=B, cdim=cdim):
                stub_nl(V)
                D = Dims(V, cls)
                m = make(V, kind, D)
                keys = CAT[kind][2]
                base = shapes(kind, D)
                q = blocks(V, 'q', B, keys, cdim, base)
                po, t = V.sdict([]), V.real('t')
                seen = []

                def rhs(ex, a):
                    x = V.entries(a['state_dict_or_dict_of_dicts'])
                    V.true([k for k, _ in x] == keys, 'entries of the joined state')
                    V.true(ex.force(a['parameter_objects']) is po, 'parameters')
                    for k, v in x:
                        V.tensor_eq(v, cat(V, [dict(V.entries(d))[k] for _, d in V.entries(q)], cdim), 'joined state ' + k)
                    seen.append(1)
                    return V.sdict([('dot_' + k, V.tensor('R_' + k, v.term.lead, grad=True)) for k, v in x])
                f = V.ex.force(V.ex.getattr(m, 'rhs_advect_state'))
                V.ex.stubs[f.func.qual()] = lambda ex, a, k: rhs(ex, ex.bind_args(f.func, list(a), dict(k)))
                r = V.entries(V.m(m, 'rhs_advect_state_dict_of_dicts', t, q, po, cdim))
                V.true(len(seen) == 1, 'state equation evaluated once')
                V.true([b for b, _ in r] == [b for b, _ in V.entries(q)], 'blocks')
                off = dict((k, 0) for k in keys)
                for (b, d), (_, d0) in zip(r, V.entries(q)):
                    ents = V.entries(d)
                    V.true(len(ents) == len(keys), 'entries of a block')
                    for (k, v), (k0, v0) in zip(ents, V.entries(d0)):
                        n = v0.term.lead[cdim]
                        R = tvar('R_' + k0, (), cat(V, [dict(V.entries(dd))[k0] for _, dd in V.entries(q)], cdim).term.lead)
                        V.tensor_eq(v, T.slice_term(V.ex, R, cdim, slice(off[k0], simp(zi(off[k0]) + zi(n)), None)), 'derivative of %s.%s is its part' % (b, k0))
                        off[k0] = simp(zi(off[k0]) + zi(n))


for B in (1, 2, 3):
    @obligation('rhs_advect_costate_reduced: %d blocks' % B, 'rhs_advect_costate_reduced_dict_of_dicts', scope='%d blocks of any sizes (bounded); any reduced Lagrangian' % B)
    def _(V, B=B):
        stub_nl(V)
        D = Dims(V)
        m = make(V, 'updown', D)
        keys = ['q1', 'q2']
        q = blocks(V, 'q', B, keys, 2, shapes('updown', D))
        c = blocks(V, 'c', B, keys, 2, shapes('updown', D), pre='p_')
        leaves = [v for _, d in V.entries(q) for _, v in V.entries(d)]
        L = PTensor(Tensor('opaque', [], None, name='L', args=tuple(v.term for v in leaves)))
        t = V.real('t')

        def red(ex, a):
            V.true(ex.force(a['state_dict_of_dicts']) is q and ex.force(a['costate_dict_of_dicts']) is c, 'evaluated at the state')
            return (L, tval(V, V.real('K')), tval(V, V.real('U')))
        V.contract('shooting_integrands:ShootingIntegrandBase.compute_reduced_lagrangian', red)
        r = V.entries(V.m(m, 'rhs_advect_costate_reduced_dict_of_dicts', t, q, c))
        V.true([b for b, _ in r] == [b for b, _ in V.entries(q)], 'blocks')
        g = iter(grad(V, L, leaves))
        for (b, d), (_, d0) in zip(r, V.entries(q)):
            V.true([k for k, _ in V.entries(d)] == ['dot_p_' + k for k in keys], 'names')
            for k, v in V.entries(d):
                V.tensor_eq(v, next(g), '%s.%s is the derivative of the Lagrangian' % (b, k))
