"""C06  Lagrangian, stationary parameters, costate equation."""
import torch
from lib.rt import *
from lib.models import *


def cases(tier, rng):
    i = 0
    for m in CAT:
        for nl in ('identity', 'relu', 'tanh', 'sigmoid', 'softmax'):
            for w in (None, 2.5):
                if m in CONV and (nl in ('relu', 'softmax') or w) and tier == 'quick':
                    continue
                yield dict(model=m, nl=nl, w=w, N=3, d=2, infl=3, seed=i); i += 1
        yield dict(model=m, nl='tanh', w=0.3, N=1, d=1, infl=1, seed=i); i += 1
        yield dict(model=m, nl='tanh', w=1.0, N=5, d=3, infl=2, seed=i); i += 1
    for mm in ('updown', 'simple', 'universal', 'second', 'conv'):
        yield dict(kind='mb', model=mm, nl='tanh', w=None, N=3, d=2, infl=2, seed=i); i += 1
    yield dict(kind='derived', base='updown', nl='tanh', w=2.5, N=3, d=2, infl=3, seed=i); i += 1
    yield dict(kind='derived', base='simple', nl='tanh', w=None, N=4, d=2, infl=1, seed=i); i += 1
    for w in (None, 1.0, .5):
        yield dict(kind='iterative', w=w, N=3, d=2, nl='tanh', seed=i); i += 1
    yield dict(model='updown', nl='tanh', w=-1.5, N=3, d=2, infl=2, seed=i); i += 1
    yield dict(model='simple', nl='sigmoid', w=-.5, N=2, d=2, infl=2, seed=i); i += 1
    yield dict(kind='weights', seed=0)
    yield dict(kind='store', seed=0)
    n = ncases(tier, 0, 150)
    for j in range(n):
        yield dict(model=rng.choice(list(CAT)), nl=rng.choice(['identity', 'relu', 'tanh', 'sigmoid', 'softmax']), w=rweight(rng, [None, .1, 1., 7.]),
                   N=rsize(rng, 1, 6), d=rsize(rng, 1, 4), infl=rsize(rng, 1, 4), seed=1000 + j)


def derived(case):
    """a model of a user: the state equation depends on time explicitly"""
    base = type(make(case))

    class Timed(base):
        def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
            s, p, r = state_dict_or_dict_of_dicts, parameter_objects, SD()
            if case['model'] == 'simple':
                r['dot_q1'] = p['l1'](input=t * self.nl(s['q1'])) - t * s['q1']
            else:
                r['dot_q1'] = (1.0 + t * t) * p['l1'](input=self.nl(s['q2']))
                r['dot_q2'] = p['l2'](input=s['q1']) + t * s['q2']
            return r
    return make(case, derived=Timed)


def iterative(case):
    """models that are nonlinear in their parameters: the iteration approaches a stationary point of the Lagrangian"""
    si, oc = mod('shooting_integrands'), mod('overwrite_classes')

    class Non(si.ShootingNonlinearInParameterVectorIntegrand):
        def create_initial_state_parameters(self, set_to_zero, *args, **kwargs):
            return SD({'q1': torch.zeros(self.nr_of_particles, 1, self.in_features)})

        def create_default_parameter_objects(self):
            return SD({'l1': oc.SNN_Linear(in_features=self.in_features, out_features=self.in_features, weight=self.parameter_weight), 'l2': oc.SNN_Linear(in_features=self.in_features, out_features=self.in_features, weight=self.parameter_weight)})

        def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
            s, p = state_dict_or_dict_of_dicts, parameter_objects
            return SD({'dot_q1': p['l1'](input=self.nl(s['q1'])) + t * p['l2'](input=s['q1'])})

        def get_initial_data_dict_from_data_tensor(self, x):
            return SD({'q1': x})

        def disassemble(self, input, dim=1):
            return self.disassemble_tensor(input, dim=dim)[2]
    m = Non(in_features=case['d'], nonlinearity=case['nl'], nr_of_particles=case['N'], particle_dimension=1, particle_size=case['d'], parameter_weight=case['w'])
    s, c = (SD({k: torch.randn(case['N'], 1, case['d'], requires_grad=True)}) for k in ('q1', 'p_q1'))
    ss, cc, t = SD({'blk': s}), SD({'blk': c}), torch.tensor(0.3)
    def residual(po):
        L, _, _ = m.compute_lagrangian(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc, parameter_objects=po)
        return torch.cat([g.reshape(-1) for g in torch.autograd.grad(L, [v for o in po for v in po[o].get_parameter_dict().values()], create_graph=True)])
    # Lagrangian, quadratic in the parameters: every step of length 1/2 reduces the residual by the factor 1 - w / 2
    f = 1 - .5 * (1. if case['w'] is None else case['w'])
    torch.manual_seed(4)
    r0 = residual(m.create_default_parameter_objects())
    torch.manual_seed(4)
    po = m.compute_parameters(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc)
    r1 = residual(po)
    ensure(float(r1.norm()) <= abs(f) ** 5 * float(r0.norm()) * (1 + 1e-6), 'iterated parameters: residual %g, at the start %g', float(r1.norm()), float(r0.norm()))
    # the dependence on state and costate is kept for the costate equation
    g = torch.autograd.grad(sum((v ** 2).sum() for o in po for v in po[o].get_parameter_dict().values()), [s['q1'], c['p_q1']], allow_unused=True)
    ensure(all(x is not None and bool((x != 0).any()) for x in g), 'iterated parameters do not depend on states and costates')
    got = m.rhs_advect_costate_reduced_dict_of_dicts(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc)
    ensure(list(got['blk']) == ['dot_p_q1'] and got['blk']['dot_p_q1'].shape == s['q1'].shape, 'costate derivative of an iterative model')


def check_case(case):
    torch.set_default_dtype(torch.float64)
    if case.get('kind') == 'weights':
        return weights()
    if case.get('kind') == 'store':
        return store()
    if case.get('kind') == 'iterative':
        return iterative(case)
    if case.get('kind') == 'derived':
        case = dict(case, model=case['base'])
        m = derived(case)
    else:
        m = make(case)
    t = torch.tensor(0.3)
    if case.get('kind') == 'mb':
        return multiblock(m, case, t)
    s, c = state(case), state(case, pre='p_')
    ss, cc = SD({'blk': s}), SD({'blk': c})
    po = randomize(m.create_default_parameter_objects())
    L, T, U = m.compute_lagrangian(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc, parameter_objects=po)
    dot = m.rhs_advect_state(t, s, po)
    t_equal(T, kinetic(po), 'kinetic energy', 1e-8)
    t_equal(U, potential(dot, c), 'potential energy', 1e-8)
    t_equal(L, T - U, 'Lagrangian = kinetic - potential', 1e-8)
    # stationary parameters
    ps = m.compute_parameters(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc)
    _, ref = ref_parameters(m, t, s, c)
    for (o, k), v in ref.items():
        t_equal(ps[o].get_parameter_dict()[k], v, 'computed parameter %s.%s' % (o, k), 1e-7)
    L2, _, _ = m.compute_lagrangian(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc,
                                    parameter_objects=install(m.create_default_parameter_objects(), {k: v.detach().requires_grad_(True) for k, v in ref.items()}))
    # reduced Lagrangian and costate equation
    want, rpo, rdot, rL = ref_costate(m, t, s, c)
    RL, RT, RU = m.compute_reduced_lagrangian(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc)
    N = case['N']
    t_equal(RL, N * rL, 'reduced Lagrangian', 1e-7)
    t_equal(RT, N * kinetic(rpo), 'reduced kinetic energy', 1e-7)
    t_equal(RU, N * potential(rdot, c), 'reduced potential energy', 1e-7)
    got = m.rhs_advect_costate_reduced_dict_of_dicts(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc)
    ensure(list(got.keys()) == ['blk'], 'costate derivative blocks')
    d_equal(got['blk'], want, 'costate derivative', 1e-6)
    # evaluating the whole system
    a, b, d, p = m.compute_gradients(t, ss, cc, SD({'blk': state(case, n=4)}))
    d_equal(b['blk'], want, 'costate derivative (system)', 1e-6)
    d_equal(a['blk'], rdot, 'state derivative (system)', 1e-7)


def multiblock(m, case, t):
    """several blocks: entries are joined per name before the model equation is applied, energies sum over all of them"""
    s1, c1 = state(case), state(case, pre='p_')
    dim = m.concatenation_dim
    # split the feature dimension of one big state into two blocks
    big, bigc = s1, c1
    def split(d):
        a, b = SD(), SD()
        for k in d:
            n = d[k].shape[dim]
            a[k] = d[k].narrow(dim, 0, n // 2).detach().clone().requires_grad_(True)
            b[k] = d[k].narrow(dim, n // 2, n - n // 2).detach().clone().requires_grad_(True)
        return a, b
    sa, sb = split(big); ca, cb = split(bigc)
    ss, cc = SD({'x': sa, 'y': sb}), SD({'x': ca, 'y': cb})
    ref = m.rhs_advect_costate_reduced_dict_of_dicts(t=t, state_dict_of_dicts=SD({'z': big}), costate_dict_of_dicts=SD({'z': bigc}))['z']
    got = m.rhs_advect_costate_reduced_dict_of_dicts(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc)
    for k in ref:
        t_equal(torch.cat([got['x'][k], got['y'][k]], dim), ref[k], 'costate derivative over two blocks ' + k, 1e-7)
    po = randomize(m.create_default_parameter_objects())
    L0 = m.compute_lagrangian(t=t, state_dict_of_dicts=SD({'z': big}), costate_dict_of_dicts=SD({'z': bigc}), parameter_objects=po)
    L1 = m.compute_lagrangian(t=t, state_dict_of_dicts=ss, costate_dict_of_dicts=cc, parameter_objects=po)
    for a, b in zip(L0, L1):
        t_equal(b, a, 'energies over two blocks', 1e-8)


def weights():
    """individually weighted parameters"""
    oc = mod('overwrite_classes')
    m = make(dict(model='updown', nl='tanh', w=2.0))
    l1 = oc.SNN_Linear(2, 3, weight=None); l2 = oc.SNN_Linear(2, 2, weight=4.0); l3 = oc.SNN_Linear(3, 1, bias=False, weight=0.5)
    l2.add_weight('bias', 0.25)
    l1.add_weight('weight', torch.tensor(3.0))
    del l3.get_parameter_weight_dict()['weight']
    po = SD({'l1': l1, 'l2': l2, 'l3': l3})
    want = 0.5 * (3.0 * (l1.get_parameter_dict()['weight'] ** 2).sum() + (l1.get_parameter_dict()['bias'] ** 2).sum()
                  + 4.0 * (l2.get_parameter_dict()['weight'] ** 2).sum() + 0.25 * (l2.get_parameter_dict()['bias'] ** 2).sum()
                  + (l3.get_parameter_dict()['weight'] ** 2).sum())
    t_equal(m.compute_kinetic_energy(0, po), want, 'kinetic energy with individual weights', 1e-9)


def store():
    oc = mod('overwrite_classes')
    m = make(dict(model='updown', nl='tanh', w=2.0))
    l1 = oc.SNN_Linear(2, 3, weight=4.0); l2 = oc.SNN_Linear(2, 2); l1.add_weight('bias', 0.5)
    po = SD({'l1': l1, 'l2': l2})
    del l2.get_parameter_weight_dict()['bias']
    g = SD({o: SD({'grad_' + k: torch.randn_like(v) for k, v in po[o].get_parameter_dict().items()}) for o in po})
    old = {(o, k): v.detach().clone() for o in po for k, v in po[o].get_parameter_dict().items()}
    m.add_multiple_to_parameter_objects(parameter_objects=po, pd_from=g, multiplier=-0.5)
    for (o, k), v in old.items():
        t_equal(po[o].get_parameter_dict()[k].detach(), v - 0.5 * g[o]['grad_' + k], 'parameter plus multiple', 1e-9)
    r = m.divide_and_store_in_parameter_objects(po, g)
    for (o, k), v in old.items():
        t_equal(r[o].get_parameter_dict()[k], g[o]['grad_' + k] / weight_of(po[o], k), 'stored parameter', 1e-9)
