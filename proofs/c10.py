"""C10: time-dependent parameters: the slot in force at the requested time.

Class invariant of ParticleFreeParameterFunc: the slot times increase strictly from the start time and stay below the end time, and the
cached time is the slot time at the cached index.  The constructor establishes it, every lookup keeps it, and a lookup from an arbitrary
state that satisfies it returns the slot in force, so that the answer depends on the time only."""
from pyvc.prove import *
from proofs.common import *

P = 'shooting_blocks:ParticleFreeParameterFunc'
FIELDS = ['time_dependent_steps', 'integration_time', 'parameter_creation_func', 'min_t', 'max_t', 'times', 'time_parameter_list', 'last_used_time_idx', 'last_used_time']
COUNT = '''
import torch
def pair(a, b):
    return torch.tensor([a, b])
def size(x):
    return len(x)
class Make(object):
    def __init__(self):
        self.n = 0
    def make(self):
        self.n = self.n + 1
        return {'id': self.n}
'''


def interval(V):
    t0, t1 = V.real('t0'), V.real('t1')
    V.assume(t0 < t1)
    it = V.call(V.define(COUNT)['pair'], t0, t1)
    return t0, t1, it


def build(V, n):
    t0, t1, it = interval(V)
    mk = V.call(V.define(COUNT)['Make'])
    f = V.call(P, time_dependent_steps=n, integration_time=it, parameter_creation_func=V.attr(mk, 'make'))
    return t0, t1, mk, f


def val(V, x):
    return ext.zr(sigma.simplify_expr(sigma.elem(x.term, [0] * x.term.nidx()))) if isinstance(x, PTensor) else ext.zr(x)


@obligation('slots: one per step, created once each, at equidistant start times', P + '.__init__', scope='any number of slots, any interval')
def slots(V):
    n = V.int('n', 2)
    t0, t1, mk, f = build(V, n)
    pl = V.ex.force(V.m(f, 'get_time_parameter_list'))
    V.eqint(V.call(V.define(COUNT)['size'], pl), n, 'number of slots')
    V.eqint(V.attr(mk, 'n'), n, 'number of parameter sets created')
    j = V.int('j', 0, n)
    V.ex.ctx.index.append(j)
    V.eqint(V.item(V.item(pl, j), 'id'), j + 1, 'slot j holds the j-th created parameters')
    V.fields(f, FIELDS, 'parameter function')
    V.true(simp(val(V, V.item(V.attr(f, 'times'), j)) == t0 + z3.ToReal(j) * (t1 - t0) / z3.ToReal(n)), 'slot j starts at t0 + j (t1-t0)/n')
    V.true(simp(val(V, V.attr(f, 'min_t')) == t0), 'start of the interval')
    V.true(simp(val(V, V.attr(f, 'max_t')) == t1), 'end of the interval')
    i = V.attr(f, 'last_used_time_idx')
    V.true(simp(z3.And(zi(i) >= 0, zi(i) < n)), 'cached index is a slot')
    V.true(simp(val(V, V.attr(f, 'last_used_time')) == t0 + z3.ToReal(zi(i)) * (t1 - t0) / z3.ToReal(n)), 'cached time is the time of the cached slot')


@obligation('one slot: static parameters', P, scope='any time')
def static(V):
    t0, t1, mk, f = build(V, 1)
    V.eqint(V.attr(mk, 'n'), 1, 'one parameter set is created')
    t = V.tensor('t', [])
    for k in range(2):
        r = V.ex.force(V.m(f, 'get_parameters_at_time', t))
        V.is_(r, V.item(V.m(f, 'get_time_parameter_list'), 0), 'the only slot')


@obligation('lemma: equidistant start times increase', P, scope='any number of slots')
def lemma(V):
    n, j, k = V.int('n', 2), V.int('j', 0), V.int('k', 0)
    t0, t1 = V.real('t0'), V.real('t1')
    V.assume(t0 < t1, j < k, k < n)
    x = lambda i: t0 + z3.ToReal(i) * (t1 - t0) / z3.ToReal(n)
    V.true(simp(x(j) < x(k)), 'increasing')
    V.true(simp(x(z3.IntVal(0)) == t0), 'first slot starts at the start')
    V.true(simp(x(k) < t1), 'all slots start before the end')


@obligation('lookup from any reachable state returns the slot in force and keeps the invariant', P + '.get_parameters_at_time', scope='any number of slots, any slot times, any history of lookups')
def lookup(V):
    n = V.int('n', 2)
    t0, t1, mk, f = build(V, 3)
    V.fields(f, FIELDS, 'parameter function')
    times = V.tensor('times', [n])
    F = z3.Function('el:times', z3.IntSort(), z3.RealSort())
    rng = lambda a: z3.And(a >= 0, a < n)
    V.ex.ctx.pairs['el:times'] = ([F(z3.IntVal(0)), F(simp(n - 1))], lambda x, y: z3.Implies(z3.And(rng(x.arg(0)), rng(y.arg(0)), x.arg(0) < y.arg(0)), x < y))
    V.assume(F(z3.IntVal(0)) == t0)
    V.ex.ctx.axioms['el:times'] = lambda a: z3.Implies(rng(a), F(a) < t1)
    j = fresh_bound()
    pl = PList([])
    pl.segs = [Seg(0, n, j, tvar('slot', (j,), [], None))]
    i0 = V.int('i0', 0, n)
    V.ex.ctx.index.append(i0)
    for a, v in (('time_dependent_steps', n), ('times', times), ('time_parameter_list', pl), ('last_used_time_idx', i0), ('last_used_time', V.item(times, i0))):
        V.set(f, a, v)
    t = V.tensor('t', [])
    tt = z3.Real('el:t')
    k = V.int('k', 0, n)
    V.ex.ctx.index.append(k)
    V.assume(z3.Or(k == 0, F(k) <= tt), z3.Or(k == n - 1, tt < F(simp(k + 1))))
    r = V.ex.force(V.m(f, 'get_parameters_at_time', t))
    V.tensor_eq(r, PTensor(tvar('slot', (k,), [], None)), 'the slot in force')
    i = zi(V.attr(f, 'last_used_time_idx'))
    V.true(simp(rng(i)), 'cached index is a slot')
    V.true(simp(val(V, V.attr(f, 'last_used_time')) == F(i)), 'cached time is the time of the cached slot')
    for a, v in (('times', times), ('time_parameter_list', pl)):
        V.is_(V.attr(f, a), v, a + ' unchanged')


# ---------------------------------------------------------------- the slots in the block and in the integrand
SLOTS = '''
class Func(object):
    """answers as ParticleFreeParameterFunc (contract proved above): the slot in force, here one of two, split at an arbitrary time"""
    def __init__(self, a, b, c):
        self.a = a
        self.b = b
        self.c = c
    def get_time_parameter_list(self):
        return [self.a, self.b]
    def get_parameters_at_time(self, t):
        if t < self.c:
            return self.a
        return self.b
'''
MS = 'any number of particles, samples and features, any inflation factor, any parameter values, any times'


def one(V, d):
    return V.sdict([('k', d)])


def close(V, d, want, what):
    u, v = V.entries(d), V.entries(want)
    V.true(len(u) == len(v), what + ': entries')
    for (k, x), (_, y) in zip(u, v):
        V.tensor_eq(x, y, '%s: %s' % (what, k))


for nm in CAT:
    for ana in ((False, True) if CAT[nm][3] else (False,)):
        @obligation('right hand side uses the slot in force[%s%s]' % (nm, ',analytic' if ana else ''), 'compute_gradients_%s, set_externally_managed_rnn_parameter_func, reset, compute_reduced_lagrangian' % ('analytic' if ana else 'autodiff'), scope=MS + '; callee contract: ParticleFreeParameterFunc.get_parameters_at_time (discharged above)')
        def _(V, nm=nm, ana=ana):
            stub_nl(V)
            D = Dims(V, CAT[nm][1])
            m = make(V, nm, D, use_analytic_solution=ana)
            pa, pb = params(V, m, 'pa', grad=True), params(V, m, 'pb', grad=True)
            c = V.real('c')
            V.m(m, 'set_externally_managed_rnn_parameter_func', V.call(V.define(SLOTS)['Func'], pa, pb, tval(V, c)))
            lo, hi = V.real('lo'), V.real('hi')
            V.assume(lo < c, hi >= c, lo != 0, hi != 0)
            for tag, e, po in (('a', hi, pb), ('b', lo, pa), ('c', hi, pb)):
                if tag == 'c':
                    V.m(m, 'reset')
                q = (state(V, nm, D, tag=tag), state(V, nm, D, pre='p_', tag=tag), state(V, nm, D, n=V.dim('n' + tag), tag='x' + tag))
                t = tval(V, e)
                r = V.ex.force(V.m(m, 'compute_gradients', t, *[one(V, d) for d in q]))
                close(V, V.entries(r[0])[0][1], V.m(m, 'rhs_advect_state', t, q[0], po), 'particles')
                close(V, V.entries(r[2])[0][1], V.m(m, 'rhs_advect_state', t, q[2], po), 'data')
                same_list(V, flatpars(V, r[3]), flatpars(V, po), 'reported parameters')
                if not ana:
                    L = V.m(m, 'compute_lagrangian', t, one(V, q[0]), one(V, q[1]), po)[0]
                    vs = [v for _, v in V.entries(q[0])]
                    g = [V.ex.force(x) for x in T.autograd_grad(V.ex, [L, tuple(vs)], dict(create_graph=True, allow_unused=True))]
                    for (k, v), w in zip(V.entries(V.entries(r[1])[0][1]), g):
                        V.tensor_eq(v, T.ew(V.ex, 'mul', [num(D.N), w.term]), 'costates: ' + k)
                if tag != 'b' and CAT[nm][1] == 'vec':
                    k = V.ex.force(V.m(m, 'compute_reduced_lagrangian', t, one(V, q[0]), one(V, q[1])))[1]
                    V.tensor_eq(k, T.ew(V.ex, 'mul', [num(D.N), V.ex.force(V.m(m, 'compute_kinetic_energy', t, po)).term]), 'kinetic energy of the slot in force')


KINDS = [('rnn', 1)] + [('time', n) for n in (1, 2, 12)]
for nm in CAT:
    for kind, n in KINDS:
        if n == 12 and nm not in ('simple', 'updown'):
            continue
        @obligation('block: the parameters of every slot are registered[%s,%s,%d]' % (nm, kind, n), 'ShootingBlockBase.__init__, register_particle_free_parameters', scope='bounded: %d slots; any dimensions' % n)
        def _(V, nm=nm, kind=kind, n=n):
            stub_nl(V)
            D = Dims(V, CAT[nm][1])
            m = make(V, nm, D)
            te = V.real('te')
            V.assume(te > 0)
            kw = dict(use_particle_free_rnn_mode=True) if kind == 'rnn' else dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=n)
            got = []

            def seen(ex, a):
                got.append(a['rnn_parameter_func'])
                return NotImplemented
            V.contract('shooting_integrands:ShootingIntegrandBase.set_externally_managed_rnn_parameter_func', seen)
            b = V.call('shooting_blocks:ShootingBlockBase', 'blk', shooting_integrand=m, max_integration_time=te, **kw)
            if len(got) != 1:
                raise Unsupported('parameter function handed over in another way')
            f = V.ex.force(got[0])
            pl = V.ex.force(V.m(f, 'get_time_parameter_list'))
            V.eqint(V.call(V.define(COUNT)['size'], pl), n, 'number of slots')
            reg = ext.named_params(V.ex, b)
            V.true(len(set(id(p) for _, p in reg)) == len(reg), 'each parameter is registered once')
            ids = []
            for i in range(n):
                for o, k, p in flatpars(V, V.item(pl, i)):
                    V.true(sum(1 for _, x in reg if x is p) == 1, 'parameter %s.%s of slot %d is registered in the block' % (o, k, i))
                    V.true(V.grads(p), 'parameter %s.%s of slot %d can be optimised over' % (o, k, i))
                    ids.append(id(p))
            V.true(len(set(ids)) == len(ids), 'the slots share no parameters')
            V.eqint(len(reg), len(ids), 'the block has no other parameters')
            for i in range(n):
                t = simp(te * (2 * i + 1) / (2 * n))
                V.is_(V.m(f, 'get_parameters_at_time', tval(V, t)), V.item(pl, i), 'slot %d is in force in its part of the interval' % i)
