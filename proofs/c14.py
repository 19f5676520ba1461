"""C14: the norm penalty is the kinetic energy at the start of the current pass."""
from proofs.common import *
from proofs.dod import II

SC = 'all numbers of particles and data, in_features, inflation factors >= 1 (conv: image sizes >= 1, 3x3 filters); any elementwise nonlinearity; any non-zero weight; any times'


def scalar(V, t, want, what):
    """one number (whatever the number of dimensions of size one) with the given value"""
    t = V.ex.force(t)
    if not isinstance(t, PTensor):
        return V.fail(what, 'not a tensor: %r' % (t,))
    V.eqint(t.term.numel(), 1, what + ': one number')
    V.tensor_eq(PTensor(T.view(V.ex, t, [], None).term) if t.term.lead else t, PTensor(want), what)


def kinetic(V, po):
    """half the weighted sum of squares over all parameters"""
    s = num(0)
    for o, l in V.entries(po):
        ws = dict(V.entries(V.m(l, 'get_parameter_weight_dict')))
        for k, p in V.entries(V.m(l, 'get_parameter_dict')):
            e = T.reduce_sum(V.ex, T.ew(V.ex, 'mul', [p.term, p.term]), list(range(p.term.nidx())))
            if ws.get(k) is not None:
                w = V.ex.force(ws[k])
                e = T.ew(V.ex, 'mul', [sigma.elem(w.term, []) if isinstance(w, PTensor) else num(w), e])
            s = T.ew(V.ex, 'add', [s, e])
    return T.ew(V.ex, 'mul', [num(Fraction(1, 2)), s])


def penalty(V, m):
    a, b = V.ex.force(V.m(m, 'get_norm_penalty')), V.ex.force(V.m(m, 'get_current_norm_penalty'))
    V.true(a is b or (isinstance(a, PTensor) and isinstance(b, PTensor) and a.term.key() == b.term.key()), 'both accessors agree')
    return a


def kinds(V, v0, kind):
    """the time as tensor or as number"""
    return tval(V, v0) if kind == 'tensor' else v0


for nm in CAT:
    for ana in ((False, True) if CAT[nm][3] else (False,)):
        for tk in (('tensor', 'number') if nm == 'simple' else ('tensor',)):
            @obligation('penalty[%s%s%s]' % (nm, ',analytic' if ana else '', ',times are numbers' if tk == 'number' else ''), 'compute_gradients, compute_gradients_%s, compute_kinetic_energy, reset, get_norm_penalty' % ('analytic' if ana else 'autodiff'), scope=SC)
            def _(V, nm=nm, ana=ana, tk=tk):
                stub_nl(V)
                D = Dims(V, CAT[nm][1])
                w = V.real('w')
                V.assume(w != 0)
                m = make(V, nm, D, w, use_analytic_solution=ana)
                q = lambda tag: [V.sdict([('k', d)]) for d in (state(V, nm, D, tag=tag), state(V, nm, D, pre='p_', tag=tag), state(V, nm, D, n=V.dim('n'), tag='x' + tag))]
                a, b = V.real('ta'), V.real('tb')
                V.assume(a != 0, b != 0)
                z = kinds(V, z3.RealVal(0) if tk == 'number' else num(0), tk)
                V.none(penalty(V, m), 'no penalty before the first evaluation')
                V.m(m, 'compute_gradients', kinds(V, a, tk), *q('a'))
                V.none(penalty(V, m), 'none after an evaluation at another time')
                r = V.ex.force(V.m(m, 'compute_gradients', z, *q('z')))
                p = penalty(V, m)
                scalar(V, p, kinetic(V, r[3]), 'kinetic energy of the parameters at time zero')
                V.true(V.grads(p), 'differentiable')
                k0 = V.ex.force(p).term
                V.m(m, 'compute_gradients', kinds(V, b, tk), *q('b'))
                V.true(penalty(V, m).term.key() == k0.key(), 'an evaluation at another time does not change it')
                V.m(m, 'reset')
                V.none(penalty(V, m), 'forgotten by the reset')
                V.m(m, 'compute_gradients', kinds(V, b, tk), *q('b'))
                V.none(penalty(V, m), 'a pass that does not visit time zero has none')


def slots(V, po_list, seq):
    """object that answers as the parameter function of the block (contract of ParticleFreeParameterFunc, see C10)"""
    return V.define('''
class Func(object):
    def __init__(self, l, p):
        self.l = l
        self.p = p
        self.time_parameter_list = l
        self.time_dependent_steps = len(l)
    def get_time_parameter_list(self):
        return self.l
    def get_parameters_at_time(self, t):
        return self.p
''')['Func']


for ana in (False, True):
    @obligation('penalty: average over any number of slots%s' % (' (analytic)' if ana else ''), 'compute_gradients_%s' % ('analytic' if ana else 'autodiff'), scope='any number of time slots >= 1; callee contracts: compute_kinetic_energy (discharged in C06), right hand sides')
    def _(V, ana=ana):
        stub_nl(V)
        D = Dims(V)
        m = make(V, 'simple', D, use_analytic_solution=ana)
        S = V.dim('S')
        i = z3.Int('slot!i')
        K = z3.Function('K', II, z3.RealSort())
        o = PInst(V.define('class Slot(object):\n    pass\n')['Slot'], {'number': i})
        Heap.objs.remove(o)
        lst = PList(segs=[Seg(0, S, i, FamRef(Fam(o, [i]), [i]))])
        po = V.m(m, 'create_default_parameter_objects')
        fn_ = V.call(slots(V, None, None), lst, po)
        V.m(m, 'set_externally_managed_rnn_parameter_func', fn_)

        def kin(ex, a):
            x = ex.force(a['parameter_objects'])
            if isinstance(x, PInst) and 'number' in x.attrs:
                return tval(V, num(K(zi(ex.force(ex.getattr(x, 'number'))))))
            return NotImplemented
        V.contract('shooting_integrands:ShootingIntegrandBase.compute_kinetic_energy', kin)
        q = lambda tag: [V.sdict([('k', d)]) for d in (state(V, 'simple', D, tag=tag), state(V, 'simple', D, pre='p_', tag=tag), state(V, 'simple', D, n=V.dim('n'), tag='x' + tag))]
        a = V.real('ta')
        V.assume(a != 0)
        V.m(m, 'compute_gradients', tval(V, a), *q('a'))
        V.none(penalty(V, m), 'none after an evaluation at another time')
        V.m(m, 'compute_gradients', tval(V, num(0)), *q('z'))
        k = fresh_bound()
        scalar(V, penalty(V, m), tfull(mul(inv(num(S)), esum(k, S, num(K(k)))), []), 'average of the kinetic energies of the slots')
        V.m(m, 'reset')
        V.none(penalty(V, m), 'forgotten by the reset')


for S in (1, 2, 3):
    @obligation('penalty: %d slots, differentiable' % S, 'compute_gradients_autodiff, compute_kinetic_energy', scope='%d time slots (bounded); all sizes and values' % S)
    def _(V, S=S):
        stub_nl(V)
        D = Dims(V)
        w = V.real('w')
        V.assume(w != 0)
        m = make(V, 'updown', D, w)
        po = [params(V, m, 'P%d' % i, grad=True) for i in range(S)]
        V.m(m, 'set_externally_managed_rnn_parameter_func', V.call(slots(V, None, None), V.list(po), po[0]))
        q = [V.sdict([('k', d)]) for d in (state(V, 'updown', D), state(V, 'updown', D, pre='p_'), state(V, 'updown', D, n=V.dim('n'), tag='x'))]
        V.m(m, 'compute_gradients', tval(V, num(0)), *q)
        p = penalty(V, m)
        tot = num(0)
        for x in po:
            tot = T.ew(V.ex, 'add', [tot, kinetic(V, x)])
        scalar(V, p, T.ew(V.ex, 'mul', [num(Fraction(1, S)), tot]), 'average of the kinetic energies')
        V.true(V.grads(p), 'differentiable')


BLK = '''
import torch
class Visits(object):
    def __init__(self, t, q):
        self.t = t
        self.q = q
    def integrate(self, func, x0, t):
        func.compute_gradients(self.t, *self.q)
        return torch.stack((x0, x0))
'''
for nm, mode, kw in (('simple', 'particles', {}), ('updown', 'particles', {}), ('simple', 'recurrent', dict(use_particle_free_rnn_mode=True)), ('simple', '2 slots', dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2))):
    @obligation('penalty of a block[%s,%s]: forgotten by the next pass' % (nm, mode), 'shooting_blocks:ShootingBlockBase.forward, get_norm_penalty, reset', scope='all sizes, values and times; training and evaluation mode; callee contract: an evaluation of the right hand side is one call of compute_gradients (C08)')
    def _(V, nm=nm, kw=kw):
        stub_nl(V)
        D = Dims(V, CAT[nm][1])
        m = make(V, nm, D)
        it = V.call(V.define(BLK)['Visits'], tval(V, num(0)), tuple(V.sdict([('blk', d)]) for d in (state(V, nm, D), state(V, nm, D, pre='p_'), state(V, nm, D, n=V.dim('n'), tag='x'))))
        b = V.call('shooting_blocks:ShootingBlockBase', 'blk', shooting_integrand=m, integrator=it, **kw)
        a = V.real('ta')
        V.assume(a != 0)
        x = lambda tag: V.tensor('x' + tag, shapes(nm, D, V.dim('S' + tag))['q1'])
        V.none(V.m(b, 'get_norm_penalty'), 'no penalty before the first pass')
        for i, (zero, what) in enumerate(((True, 'first pass'), (False, 'second pass'), (True, 'third pass'), (False, 'fourth pass'))):
            V.set(it, 't', tval(V, num(0)) if zero else tval(V, a))
            V.m(b, 'forward', x(str(i)))
            p = V.ex.force(V.m(b, 'get_norm_penalty'))
            if zero:
                V.true(isinstance(p, PTensor), what + ': starts at time zero and has a penalty')
                V.true(V.grads(p), what + ': differentiable')
            else:
                V.none(p, what + ': does not visit time zero and has none')
