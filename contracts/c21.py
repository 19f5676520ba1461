"""C21  the shooting models: state names and shapes, derivatives match the states, initial data, affine dependence on the parameters."""
import torch
from lib.rt import *
from lib.models import *

INIT = {'updown': ['direct', 'linear', 'mini_nn'], 'universal': ['direct', 'linear', 'mini_nn'], 'general': ['direct', 'linear', 'mini_nn'], 'periodic': ['direct', 'linear', 'mini_nn'], 'updownconv': ['linear', 'mini_nn']}


def cases(tier, rng):
    i = 0
    for m in ALL:
        for nl in ('tanh', 'relu', 'softmax'):
            yield dict(kind='model', model=m, nl=nl, w=None, N=3, d=2, infl=3, n=4, seed=i); i += 1
    for m in ALL:
        for mode in [None] + INIT.get(m, []):
            for extra in (0, 1):
                yield dict(kind='init', model=m, nl='tanh', N=3, d=2, infl=3, mode=mode, extra=extra, n=4, seed=i); i += 1
    for m in INIT:
        yield dict(kind='refuse', model=m, nl='tanh', N=3, d=2, infl=3, seed=i)
    n = ncases(tier, 20, 200)
    for j in range(n):
        m = rng.choice(list(ALL))
        yield dict(kind=rng.choice(['model', 'init']), model=m, nl=rng.choice(['tanh', 'relu', 'sigmoid', 'identity']), w=rng.choice([None, 2.]), N=rsize(rng, 1, 5), d=rng.choice([1, 2, 3, 5]), infl=rsize(rng, 1, 6, 20),
                   n=rsize(rng, 1, 6), mode=rng.choice([None] + INIT.get(m, [])), extra=0, seed=100 + j)


def check_case(case):
    torch.set_default_dtype(torch.float64)
    if case['kind'] == 'refuse':
        expect_raises(lambda: make(case, optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type='no_such'), 'unknown mode must be refused', (ValueError,))
        return
    if case['kind'] == 'init':
        return init(case)
    m = make(case)
    want = shapes(case)
    s0 = m.create_initial_state_parameters(set_to_zero=False)
    ensure({k: tuple(v.shape) for k, v in s0.items()} == want, 'states %s, expected %s', {k: tuple(v.shape) for k, v in s0.items()}, want)
    x = state(case, n=case['n'], grad=False)
    snap = snapshot(x)
    po1, po2, po3 = (randomize(m.create_default_parameter_objects()) for _ in range(3))
    ensure(all(not list(po1[o].parameters()) for o in po1), 'a layer keeps parameters of its own besides the parameter dictionary')
    r1, r2 = m.rhs_advect_state(0.0, x, po1), m.rhs_advect_state(0.0, x, po2)
    unchanged(x, snap)
    ensure(list(r1.keys()) == ['dot_' + k for k in want], 'derivatives %s', list(r1.keys()))
    for k in want:
        ensure(tuple(r1['dot_' + k].shape) == tuple(x[k].shape), 'derivative of %s has shape %s, state %s', k, tuple(r1['dot_' + k].shape), tuple(x[k].shape))
    # affine in the parameters: f(a p1 + (1-a) p2) = a f(p1) + (1-a) f(p2)
    a = 0.3
    for o in po3:
        for k in po3[o].get_parameter_dict():
            po3[o].get_parameter_dict()[k] = a * po1[o].get_parameter_dict()[k] + (1 - a) * po2[o].get_parameter_dict()[k]
    r3 = m.rhs_advect_state(0.0, x, po3)
    for k in r3:
        t_equal(r3[k].detach(), (a * r1[k] + (1 - a) * r2[k]).detach(), 'right hand side is not affine in the parameters: %s' % k, 1e-8)
    # independent of t, and sample-wise
    t_ = m.rhs_advect_state(0.77, x, po1)
    d_equal(SD({k: v.detach() for k, v in t_.items()}), SD({k: v.detach() for k, v in r1.items()}), 'right hand side depends on the time')
    one = m.rhs_advect_state(0.0, SD({k: v[:1] for k, v in x.items()}), po1)
    for k in one:
        t_equal(one[k].detach(), r1[k][:1].detach(), 'a sample is not advected independently of the others: %s' % k, 1e-8)


def init(case):
    kw = {}
    if case.get('mode'):
        kw = dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=case['mode'])
    m = make(case, **kw)
    want = shapes(case, case['n'])
    lead = ()
    if case['extra'] and ALL[case['model']][1] == 'vec' and case['model'] != 'dampened':
        lead = (2,)
        want = {k: lead + v for k, v in want.items()}
    x = torch.randn(*want['q1'])
    keep = x.clone()
    for p in m.parameters():
        torch.nn.init.normal_(p)
    d = m.get_initial_data_dict_from_data_tensor(x)
    ensure(same(x, keep), 'data tensor modified')
    ensure(list(d.keys()) == list(want), 'data entries %s, expected %s', list(d.keys()), list(want))
    for k in want:
        ensure(tuple(d[k].shape) == want[k], 'data %s has shape %s, expected %s', k, tuple(d[k].shape), want[k])
    ensure(same(d['q1'], x), 'the data are not the first state')
    if case['model'] == 'symm':
        ensure(same(d['q3'], x) and same(d['q2'], torch.cat([x] * case['infl'], -1)), 'symmetrised initial data')
    elif 'q2' in d:
        q2 = d['q2'].detach()
        if not case.get('mode'):
            ensure((q2 == 0).all(), 'second state does not start at zero')
        elif case['mode'] == 'direct':
            ensure(same(q2, m.data_q20.detach().expand_as(q2)), 'direct initial condition is not replicated')
        elif case['mode'] == 'linear':
            t_equal(q2, m.simple_init(x).detach(), 'linear initial condition')
        else:
            t_equal(q2, m.init_l2(m.nl(m.init_l1(x))).detach(), 'predicted initial condition')
        if case.get('mode'):
            ps = list(m.parameters())
            ensure(d['q2'].requires_grad, 'the initial condition is cut off from its parameters')
            g = torch.autograd.grad(d['q2'].sum(), ps, allow_unused=True)
            ensure(len(ps) > 0 and all(v is not None for v in g), 'initial condition parameters receive no gradient')
