"""C14  norm penalty: kinetic energy of the parameters at time zero, once per forward pass."""
import torch
from lib.rt import *
from lib.models import *


def cases(tier, rng):
    i = 0
    for m in CAT:
        for ana in ((False, True) if CAT[m][3] else (False,)):
            for w in (None, 2.0):
                yield dict(kind='integrand', model=m, nl='tanh', w=w, N=3, d=2, infl=2, ana=ana, seed=i); i += 1
    for m in ('updown', 'simple', 'universal', 'conv'):
        for mode in ('particles', 'rnn', 'time'):
            for ana in ((False, True) if CAT[m][3] else (False,)):
                yield dict(kind='block', model=m, nl='tanh', w=1.5, N=3, d=2, infl=2, mode=mode, ana=ana, steps=3, seed=i); i += 1
    n = ncases(tier, 15, 150)
    for j in range(n):
        m = rng.choice(list(CAT))
        ana = bool(rng.random() < .5 and CAT[m][3])
        if rng.random() < .5:
            yield dict(kind='integrand', model=m, nl=rng.choice(['relu', 'tanh', 'softmax']), w=rweight(rng, [None, .3, 4.]), N=rsize(rng, 1, 4), d=rng.choice([2, 4]), infl=rsize(rng, 1, 3, 12), ana=ana, seed=100 + j)
        else:
            yield dict(kind='block', model=m, nl=rng.choice(['relu', 'tanh']), w=rweight(rng, [None, .3, 4.]), N=rsize(rng, 1, 4), d=2, infl=rsize(rng, 1, 3, 12), ana=ana, mode=rng.choice(['particles', 'rnn', 'time']), steps=rsize(rng, 2, 5, 12), seed=100 + j)


def pen(x):
    return float(torch.as_tensor(x).detach().sum())


def near(a, b):
    return abs(a - b) <= 1e-8 + 1e-6 * max(abs(a), abs(b))


def check_case(case):
    torch.set_default_dtype(torch.float64)
    if case['kind'] == 'block':
        return block(case)
    m = make(case, use_analytic_solution=case['ana'])
    s, c, x = state(case, grad=False), state(case, pre='p_', grad=False), state(case, n=2, grad=False)
    v, plan = m.assemble_tensor(SD({'b': s}), SD({'b': c}), SD({'b': x}))
    m.set_auto_assembly_plans(plan)
    m.reset()
    ensure(m.get_norm_penalty() is None, 'penalty is set before any evaluation')
    later = (0.7, 0.5, 1.0, 0.03, 1e-3, 1e-5, 1e-9, -0.25)
    for t in later:
        m(torch.tensor(t), v)
        ensure(m.get_norm_penalty() is None, 'penalty is set by an evaluation at t=%r', t)
    v.requires_grad_(True)
    m(torch.tensor(0.0), v)
    p = m.get_norm_penalty()
    ensure(p is not None, 'no penalty after an evaluation at t=0')
    po, vals = ref_parameters(m, 0.0, SD({k: a.clone().requires_grad_(True) for k, a in s.items()}), SD({k: a.clone() for k, a in c.items()}))
    install(po, vals)
    want = pen(kinetic(po))
    ensure(near(pen(p), want), 'penalty at t=0 is %r, kinetic energy of the parameters is %r', pen(p), want)
    ensure(torch.as_tensor(p).numel() == 1, 'penalty is not a scalar')
    g, = torch.autograd.grad(p, v, retain_graph=True, allow_unused=True)
    ensure(g is not None and torch.isfinite(g).all(), 'penalty is not differentiable in the initial condition')
    for t in later:
        m(torch.tensor(t), (v * 2).detach())
        ensure(near(pen(m.get_norm_penalty()), want), 'a later evaluation (t=%r) changed the penalty', t)
    m.reset()
    ensure(m.get_norm_penalty() is None, 'reset does not forget the penalty')


def block(case):
    sb = mod('shooting_blocks')
    m = make(case, use_analytic_solution=case['ana'])
    kw = dict(particles={}, rnn=dict(use_particle_free_rnn_mode=True), time=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=case['steps']))[case['mode']]
    b = sb.ShootingBlockBase(name='b', shooting_integrand=m, integrator_name='rk4', integrator_options={'step_size': 0.25}, **kw)
    x = torch.randn(*shapes(case, 2)['q1'])
    b(x=x)
    p = b.get_norm_penalty()
    if case['mode'] == 'particles':
        s = SD({k: b._parameters[k].detach().clone().requires_grad_(True) for k in CAT[case['model']][2]})
        c = SD({'p_' + k: b._parameters['p_' + k].detach() for k in s})
        po, vals = ref_parameters(m, 0.0, s, c)
        want = pen(kinetic(install(po, vals)))
    else:
        po = m.create_default_parameter_objects()
        tot, n = 0.0, (1 if case['mode'] == 'rnn' else case['steps'])
        for i in range(n):
            for o in po:
                for k in po[o].get_parameter_dict():
                    tot += 0.5 * weight_of(po[o], k) * float((b._parameters['pf_timestep%d_%s_%s' % (i, o, k)] ** 2).sum())
        want = tot / n
    ensure(near(pen(p), want), 'penalty after the forward pass is %r, expected %r', pen(p), want)
    b(x=x)
    ensure(near(pen(b.get_norm_penalty()), want), 'penalty differs on the second forward pass: %r, expected %r', pen(b.get_norm_penalty()), want)
    # a pass which does not touch t=0 must not report the penalty of the previous one
    b.set_integration_time_vector(torch.tensor([0.5, 0.75, 1.0]), suppress_warning=True)
    b(x=x)
    ensure(b.get_norm_penalty() is None, 'stale penalty after a pass over [0.5,1]')
