"""C10  time-dependent parameters: piecewise constant lookup, independent of the query history."""
import torch
from lib.rt import *


def cases(tier, rng):
    i = 0
    for steps in (1, 2, 3, 5, 10):
        for tmax in (1.0, 2.5, 0.3, 10.0):
            pats = [[k / 20 * tmax for k in range(21)], [tmax - k / 20 * tmax for k in range(21)], [0.5 * tmax, 0.01 * tmax, .99 * tmax, 0.5 * tmax, 0., tmax],
                    [0, tmax, 0, tmax / 3, tmax / 3, 2 * tmax / 3, -1., .45 * tmax, tmax + 5, .45 * tmax]]
            pats.append([tmax * k / steps for k in range(steps)] + [tmax * k / steps + 1e-3 * tmax for k in range(steps)])
            for p in pats:
                yield dict(steps=steps, tmin=0.0, tmax=tmax, q=p, seed=i); i += 1
    yield dict(steps=4, tmin=-1.0, tmax=1.0, q=[-1, -.9, -.5, 0, .3, .9, 1, -.9, 2, -2, .1], seed=0)
    n = ncases(tier, 60, 600)
    for j in range(n):
        tm = abs(rfloat(rng, [1., 2., .7, 5.])) or 1.
        yield dict(steps=rsize(rng, 1, 12), tmin=0.0, tmax=tm, q=[rng.uniform(-.2, 1.2) * tm if rng.random() < .7 else rng.randint(0, 12) / 12 * tm for _ in range(rsize(rng, 1, 15))], seed=100 + j)
    for steps in (1, 3, 12, 104):
        yield dict(kind='block', steps=steps, tmax=2.0, seed=steps)
    for j in range(ncases(tier, 1, 12)):
        yield dict(kind='block', steps=rsize(rng, 2, 25, 40), tmax=1.0, seed=50 + j)


def check_case(case):
    sb = mod('shooting_blocks')
    if case.get('kind') == 'block':
        return block(case)
    made = []
    def create():
        made.append(object())
        return made[-1]
    it = torch.tensor([case['tmin'], case['tmax']]).float()
    f = sb.ParticleFreeParameterFunc(time_dependent_steps=case['steps'], integration_time=it, parameter_creation_func=create)
    L = f.get_time_parameter_list()
    ensure(len(made) == case['steps'], '%d parameter sets created for %d steps', len(made), case['steps'])
    ensure(len(L) == case['steps'] and all(a is b for a, b in zip(L, made)), 'parameter list does not hold each created set once, in order')
    n = case['steps']
    span = case['tmax'] - case['tmin']
    for q in case['q']:
        t = torch.tensor(q).float()
        r = f.get_parameters_at_time(t)
        got = [i for i, p in enumerate(made) if p is r]
        ensure(len(got) == 1, 'lookup did not return one of the parameter sets')
        x = (q - case['tmin']) / span * n
        k = min(max(int(x // 1), 0), n - 1)
        ok = {k}
        if abs(x - round(x)) < 1e-4:      # on a boundary, up to rounding of the slot times
            ts = [float(v) for v in f.times] if hasattr(f, 'times') else None
            if ts is not None and len(ts) == n:
                tq = float(t)
                kk = [i for i, v in enumerate(ts) if v <= tq]
                ok = {kk[-1] if kk else 0}
            else:
                ok = {min(max(int(round(x)) - 1, 0), n - 1), min(max(int(round(x)), 0), n - 1)}
        ensure(got[0] in ok, 'time %s of [%s,%s] with %d slots: slot %d, expected %s', q, case['tmin'], case['tmax'], n, got[0], sorted(ok))
        ensure(f.get_time_parameter_list() is L or list(f.get_time_parameter_list()) == list(L), 'parameter list changed by a lookup')
    ensure(len(made) == case['steps'], 'lookups created parameter sets')


def block(case):
    from lib.models import make
    sb = mod('shooting_blocks')
    m = make(dict(model='simple', nl='tanh'))
    kw = dict(use_particle_free_rnn_mode=True) if case['steps'] == 1 else dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=case['steps'])
    b = sb.ShootingBlockBase(name='b', shooting_integrand=m, integrator_name='euler', integrator_options={'step_size': 0.01}, max_integration_time=case['tmax'], **kw)
    x = torch.randn(4, 1, 2)
    y, s, c, d = b(x=x)
    names = dict(b.named_parameters())
    want = sorted('pf_timestep%d_l1_%s' % (i, k) for i in range(case['steps']) for k in ('weight', 'bias'))
    own = [n for n in names if not n.startswith('shooting_integrand.')]
    ensure(len(own) == len(want), '%d slots of two parameters each, but %d registered parameters', case['steps'], len(own))
    if sorted(own) != want:
        raise Skip('other parameter names')
    # the flow is x' = W_i tanh(x) + b_i on slot i
    z = x.clone()
    N = round(case["tmax"] / 0.01)
    for k in range(N):
        i = min(int((k * 0.01 + 1e-6) / case['tmax'] * case['steps']), case['steps'] - 1)
        W, bb = names['pf_timestep%d_l1_weight' % i], names['pf_timestep%d_l1_bias' % i]
        z = z + 0.01 * (torch.tanh(z) @ W.t() + bb)
    ensure(case['steps'] > 40 or (y - z).abs().max() < 2e-2, 'flow does not use the parameters of the time slot: difference %g', (y - z).abs().max())
    # gradients reach every slot
    g = torch.autograd.grad(y.sum(), [names[n] for n in want], allow_unused=True)
    ensure(all(v is not None and v.abs().sum() > 0 for v in g), 'a time slot receives no gradient')
