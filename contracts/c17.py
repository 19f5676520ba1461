"""C17  parameter initialisation: shapes, values, refusals; costates mirror the states."""
import torch
from lib.rt import *
from lib.models import *

V, C = ['VectorEvolutionParameterInitializer', 'VectorEvolutionSampleBatchParameterInitializer'], ['ConvolutionEvolutionParameterInitializer', 'ConvolutionEvolutionSampleBatchParameterInitializer']


def cases(tier, rng):
    i = 0
    for cls in V + C:
        for zero, const in ((True, None), (False, 2.5), (False, 1234.75), (False, -317.25), (False, 1e-5), (False, 1), (False, 0.0), (False, None), (True, 1.0), (True, 0.0)):
            for mag in (.5, 0.0, 1e-3, 3.0):
                yield dict(cls=cls, zero=zero, const=const, mag=mag, n=3, p=2, d=2, seed=i); i += 1
    for cls in V + C:
        yield dict(cls=cls, kind='custom', seed=0)
    for cls in C:
        yield dict(cls=cls, kind='size', seed=0)
    for m in CAT:
        for z in (False, True):
            yield dict(kind='model', model=m, nl='tanh', N=3, d=2, infl=2, zero=z, seed=i); i += 1
    n = ncases(tier, 20, 200)
    for j in range(n):
        z = rng.random() < .4
        yield dict(cls=rng.choice(V + C), zero=z, const=None if z or rng.random() < .3 else rfloat(rng, [-1., 0., 7.]), mag=abs(rfloat(rng, [0., .2, 2.])), n=rsize(rng, 1, 5), p=rsize(rng, 1, 4), d=rsize(rng, 1, 4), seed=100 + j)


def check_case(case):
    pi = mod('parameter_initialization')
    if case.get('kind') == 'model':
        return model(case)
    K = get(pi, case['cls'])
    conv = case['cls'].startswith('Conv')
    if case.get('kind') == 'custom':
        a = K(only_random_initialization=False)
        ps = [4, 5] if conv else 4
        for f in (lambda: a.create_parameters(3, ps), lambda: a.create_parameters_like(torch.zeros(2, 2)), lambda: a.create_parameters_of_size(4)):
            expect_raises(f, 'custom initialisation is not available and must be refused', (ValueError,))
        return
    if case.get('kind') == 'size':
        a = K(sample_batch=0.0)
        for kw in (dict(set_to_zero=True), dict(set_to_constant=1.0), {}):
            expect_raises(lambda: a.create_parameters(3, 4, **kw), 'a scalar particle size must be refused for a convolutional evolution', (ValueError,))
        return
    ps = (case['p'], case['p'] + 1) if conv else case['p']
    shape = (case['n'], case['d']) + (tuple(ps) if conv else (ps,))
    sample = torch.randn(*shape) if 'SampleBatch' in case['cls'] else None
    a = K(random_initialization_magnitude=case['mag'], sample_batch=sample)
    kw = dict(set_to_zero=case['zero'], set_to_constant=case['const'])
    like = torch.randn(2, 3, 4, dtype=torch.float64)
    like0 = like.clone()
    calls = [(lambda: a.create_parameters(nr_of_particles=case['n'], particle_size=ps, particle_dimension=case['d'], **kw), shape, sample),
             (lambda: a.create_parameters_like(like, **kw), (2, 3, 4), None),
             (lambda: a.create_parameters_of_size(torch.tensor(7), **kw) if case['mag'] else a.create_parameters_of_size(7, **kw), (7,), None)]
    for n, (f, sh, smp) in enumerate(calls):
        if case['zero'] and case['const'] is not None:
            expect_raises(f, 'zero and constant cannot both be requested', (ValueError,))
            continue
        torch.manual_seed(5)
        p = f()
        ensure(isinstance(p, torch.nn.Parameter) and p.requires_grad, 'not an optimisable parameter')
        ensure(tuple(p.shape) == sh, 'shape %s, expected %s', tuple(p.shape), sh)
        torch.manual_seed(5)
        if case['zero']:
            w = torch.zeros(sh)
        elif case['const'] is not None:
            w = torch.full(sh, case['const'])
        else:
            w = case['mag'] * (torch.randn_like(like) if n == 1 else torch.randn(sh)) + (0 if smp is None else smp)
        ensure(close(p, w, 1e-6), '%s: values %s, expected %s', sh, short(p), short(w))
    ensure(same(like, like0), 'template modified')


def model(case):
    m = make(case)
    s = m.create_initial_state_parameters_if_needed(set_to_zero=case['zero'])
    want = shapes(case)
    ensure(list(s.keys()) == list(want), 'states %s, expected %s', list(s.keys()), list(want))
    for k in want:
        ensure(tuple(s[k].shape) == want[k], 'state %s has shape %s, expected %s', k, tuple(s[k].shape), want[k])
        ensure(bool((s[k] == 0).all()) == case['zero'], 'state %s zero: %s', k, bool((s[k] == 0).all()))
    snap = snapshot(s)
    c = m.create_initial_costate_parameters(state_dict=s)
    unchanged(s, snap)
    ensure(list(c.keys()) == ['p_' + k for k in want], 'costates %s', list(c.keys()))
    for k in want:
        ensure(tuple(c['p_' + k].shape) == want[k] and isinstance(c['p_' + k], torch.nn.Parameter), 'costate of %s has shape %s', k, tuple(c['p_' + k].shape))
        ensure(bool((c['p_' + k] != 0).any()), 'costate of %s is zero', k)
    ensure(m.create_initial_costate_parameters(state_dict=None) is None, 'costates without states')
    other = SD({k: torch.nn.Parameter(torch.randn(*sh)) for k, sh in zip(('Q', 'q', 'xA_1', ' y.2'), [list(want.values())[0], list(want.values())[-1]] * 2)})
    c = m.create_initial_costate_parameters(state_dict=other)
    ensure(sorted(c.keys()) == sorted('p_' + k for k in other), 'costates %s for the states %s', list(c.keys()), list(other.keys()))
    for k in other:
        ensure(tuple(c['p_' + k].shape) == tuple(other[k].shape), 'costate of %s has shape %s, the state %s', k, tuple(c['p_' + k].shape), tuple(other[k].shape))
    for kw in (dict(is_pass_through=True), dict(nr_of_particles=None)):
        ensure(make(case, **kw).create_initial_state_parameters_if_needed(set_to_zero=False) is None, 'a block without own particles (%s) creates states', kw)
    ini = mod('parameter_initialization')
    z = get(ini, 'VectorEvolutionParameterInitializer' if CAT[case['model']][1] == 'vec' else 'ConvolutionEvolutionParameterInitializer')
    a, b = z(random_initialization_magnitude=0.0), z(random_initialization_magnitude=0.0)
    m = make(case)
    m.set_state_initializer(a); m.set_costate_initializer(b)
    ensure(m.get_state_initializer() is a and m.get_costate_initializer() is b, 'initializers not kept')
    s = m.create_initial_state_parameters_if_needed(set_to_zero=False)
    c = m.create_initial_costate_parameters(state_dict=s)
    ensure(all((v == 0).all() for v in list(s.values()) + list(c.values())), 'the chosen initializers are not used')
