"""C09  checkpointed integration covers the requested times, and agrees with plain integration."""
import math, torch
from lib.rt import *


def cases(tier, rng):
    i = 0
    T = [[0., 1.], [0., .25, .5, 1.], [0., 0.1, 0.2, 0.7, 1.0], [0., .5], [1., 2.5, 4.], [-1., 0., 0.3], [0., 10.], [0., 1 / 3, 2 / 3, 1.], [0.1, 0.7], [0.0, 1e-3, 1.0]]
    for t in T:
        for n in (0, 1, 2, 3, 7):
            for dt in ('float32', 'float64'):
                yield dict(t=t, n=n, iv=None, dt=dt, seed=i); i += 1
        for iv in (0.1, 0.25, 0.3, 0.5, 1.0, 100.0):
            for dt in ('float32', 'float64'):
                yield dict(t=t, n=None, iv=iv, dt=dt, seed=i); i += 1
    yield dict(kind='refuse', seed=0)
    for meth in ('dopri5', 'rk4', 'midpoint', 'euler'):
        yield dict(kind='plain', meth=meth, seed=0)
    for meth, n, iv in (('dopri5', 1, None), ('dopri5', 4, None), ('dopri5', None, .3), ('rk4', 1, None), ('rk4', 3, None), ('rk4', None, .25), ('euler', 0, None), ('midpoint', 2, None), ('rk4', None, 10.)):
        for t in ([0., 1.], [0., .25, .5, 1.], [0., .2, .3, .9, 1.2]):
            yield dict(kind='run', meth=meth, n=n, iv=iv, t=t, seed=i); i += 1
    for lib, name in (('odeint', 'dopri5'), ('odeint', 'rk4'), ('odeint', 'euler'), ('odeint', 'midpoint'), ('odeint', 'explicit_adams'), (None, None), ('odeint', None), (None, 'rk4')):
        for st in ('default', None, 0.1):
            for opt in (None, {}, {'step_size': 0.05}, {'step_size': None}, {'perturb': False, 'interp': 'cubic'}):
                yield dict(kind='opts', lib=lib, name=name, st=st, opt=opt, seed=i); i += 1
    n = ncases(tier, 100, 1500)
    for j in range(n):
        k = rsize(rng, 2, 8)
        t = sorted(set(round(rng.uniform(-2, 5), rng.choice([1, 3, 6])) for _ in range(k)))
        if len(t) < 2:
            continue
        nn = rng.choice([None, rsize(rng, 0, 9)])
        yield dict(t=t, n=nn, iv=None if nn is not None else abs(rfloat(rng, [.05, .1, .7, 1., 3.3])) or .5, dt=rng.choice(['float32', 'float64']), seed=1000 + j)


def check_case(case):
    gi = mod('generic_integrator')
    G = gi.GenericIntegrator
    kind = case.get('kind')
    if kind == 'refuse':
        g = G('odeint', 'rk4', nr_of_checkpoints=2)
        expect_raises(lambda: g.create_integration_time_intervals(torch.tensor([0.])), 'a single time point must be refused', (ValueError,))
        g = G('odeint', 'rk4', nr_of_checkpoints=2, checkpointing_time_interval=.1)
        expect_raises(lambda: g.create_integration_time_intervals(torch.tensor([0., 1.])), 'both checkpoint options at once must be refused', (ValueError,))
        expect_raises(lambda: g.integrate(lambda t, x: x, torch.ones(1), torch.tensor([0., 1.])), 'both checkpoint options at once must be refused', (ValueError,))
        expect_raises(lambda: G('foo', 'rk4'), 'an unknown library must be refused', (ValueError,))
        expect_raises(lambda: G('odeint', 'rk5'), 'an unknown integrator must be refused', (ValueError,))
        expect_raises(lambda: G('anode', 'dopri5'), 'an integrator of the other library must be refused', (ValueError,))
        return
    if kind == 'opts':
        return opts(G, case)
    if kind == 'plain':
        return plain(G, case)
    if kind == 'run':
        return run(G, case)
    t = torch.tensor(case['t'], dtype=getattr(torch, case['dt']))
    keep = t.clone()
    g = G('odeint', 'rk4', nr_of_checkpoints=case['n'], checkpointing_time_interval=case['iv'])
    iv, out = g.create_integration_time_intervals(t)
    ensure(torch.equal(t, keep), 'time points were modified')
    ensure(len(iv) == len(out) and len(iv) >= 1, 'number of intervals and masks differ')
    sel = []
    for k, (a, m) in enumerate(zip(iv, out)):
        a = a.reshape(-1); m = m.reshape(-1)
        ensure(len(a) == len(m) and len(a) >= 2, 'interval %d has %d points and %d flags', k, len(a), len(m))
        ensure((a[1:] > a[:-1]).all(), 'interval %d is not strictly increasing: %s', k, a)
        if k:
            ensure(a[0] == iv[k - 1].reshape(-1)[-1], 'interval %d does not start where interval %d ends', k, k - 1)
            ensure(not bool(m[0]), 'the start of interval %d is output twice', k)
        sel += [x for x, f in zip(a.tolist(), m.tolist()) if f]
    ensure(iv[0].reshape(-1)[0].item() == t[0].item(), 'does not start at the first requested time')
    ensure(iv[-1].reshape(-1)[-1].item() == t[-1].item(), 'does not end at the last requested time: %s', iv[-1])
    ensure(sel == t.tolist(), 'output times %s, requested %s', sel, t.tolist())
    # interval boundaries are the checkpoints
    ends = [a.reshape(-1)[-1].item() for a in iv]
    lo, hi = t[0].item(), t[-1].item()
    eps = 1e-4 * max(1., abs(lo), abs(hi))
    if case['n'] is not None:
        want = [lo + (hi - lo) * (k + 1) / (case['n'] + 1) for k in range(case['n'] + 1)]
        ensure(len(ends) == len(want) and all(abs(a - b) < eps for a, b in zip(ends, want)), 'interval ends %s, expected uniform %s', ends, want)
    else:
        ensure(all(b - a <= case['iv'] + eps for a, b in zip([lo] + ends, ends)), 'interval longer than the requested checkpoint interval: %s', ends)
        ensure(all(b - a >= case['iv'] - eps for a, b in zip([lo] + ends[:-2], ends[:-1])), 'interval shorter than the requested checkpoint interval: %s', ends)


def run(G, case):
    torch.set_default_dtype(torch.float64)
    A = torch.tensor([[-.3, 1.], [-1., -.2]])
    th = torch.tensor(0.7, requires_grad=True)
    class F(torch.nn.Module):
        def forward(self, t, x):
            return th * (x @ A.t()) + 0.1 * torch.cos(t)
    t = torch.tensor(case['t'])
    kw = dict(rtol=1e-8, atol=1e-10, step_size=0.01)
    x0 = torch.tensor([1., 2.], requires_grad=True)
    ref = G('odeint', case['meth'], **kw).integrate(F(), x0, t)
    got = G('odeint', case['meth'], nr_of_checkpoints=case['n'], checkpointing_time_interval=case['iv'], **kw).integrate(F(), x0, t)
    tol = dict(dopri5=1e-6, rk4=1e-6, midpoint=1e-4, euler=3e-2)[case['meth']]
    ensure(tuple(got.shape) == tuple(ref.shape), 'result shape %s, expected %s', tuple(got.shape), tuple(ref.shape))
    ensure((got - ref).abs().max() < tol, 'checkpointed result differs from plain integration by %g', (got - ref).abs().max())
    w = torch.randn_like(ref)
    gs = []
    for r in (ref, got):
        x0.grad = th.grad = None
        (r * w).sum().backward()
        gs.append((x0.grad.clone(), th.grad.clone()))
    ga, gb = gs
    for a, b in zip(ga, gb):
        ensure((a - b).abs().max() < 10 * tol * (1 + a.abs().max()), 'checkpointed gradient differs from plain gradient')


def opts(G, case):
    kw = {} if case['st'] == 'default' else dict(step_size=case['st'])
    opt = None if case['opt'] is None else dict(case['opt'])
    g = G(integrator_library=case['lib'], integrator_name=case['name'], integrator_options=opt, **kw)
    ensure(g.integrator_library == 'odeint', 'default library is odeint')
    name = case['name'] or 'dopri5'
    ensure(g.integrator_name == name, 'integrator %s, expected %s', g.integrator_name, name)
    st = 0.5 if case['st'] == 'default' else case['st']
    o = dict(g.integrator_options)
    want = dict(case['opt'] or {})
    if name not in ('dopri5', 'adams') and st is not None and 'step_size' not in want:
        want['step_size'] = st
    ensure(o == want, 'integrator options %s, expected %s', o, want)
    ensure(opt == case['opt'], 'the given dictionary of options was changed to %s', opt)
    if opt is not None:
        g = G(integrator_library='odeint', integrator_name='rk4', integrator_options=opt, step_size=0.03)
        want = dict(dict(step_size=0.03), **case['opt'])
        ensure(dict(g.integrator_options) == want, 'options of a second integrator with the same dictionary: %s, expected %s', dict(g.integrator_options), want)


def plain(G, case):
    """without checkpoints the integrator is torchdiffeq's with the settings given, with and without the adjoint method"""
    import torchdiffeq
    torch.set_default_dtype(torch.float64)

    class F(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.a = torch.nn.Parameter(torch.tensor([[-.3, 1.], [-1., -.2]]))
        def forward(self, t, x):
            return x @ self.a.t() + 0.1 * torch.cos(t)
    f = F()
    t = torch.tensor([0., .7, 1.9])
    opt = {} if case['meth'] == 'dopri5' else dict(step_size=.03)
    for adj, kw in ((False, {}), (True, {}), (True, dict(adjoint_params=())), (True, dict(adjoint_method='euler', adjoint_options=dict(step_size=.05)))):
        out = []
        for real in (True, False):
            x0 = torch.tensor([1., 2.], requires_grad=True)
            f.a.grad = None
            if real:
                y = (torchdiffeq.odeint_adjoint if adj else torchdiffeq.odeint)(f, x0, t, rtol=1e-5, atol=1e-6, method=case['meth'], options=dict(opt), **kw)
            else:
                y = G('odeint', case['meth'], use_adjoint_integration=adj, rtol=1e-5, atol=1e-6, step_size=.03, **kw).integrate(f, x0, t)
            (y * torch.arange(1., 7.).view(3, 2)).sum().backward()
            out.append((y.detach(), x0.grad, torch.zeros(2, 2) if f.a.grad is None else f.a.grad.clone()))
        for a, b, nm in zip(out[0], out[1], ('result', 'gradient of the start', 'gradient of the parameters')):
            ensure(a.shape == b.shape and (a - b).abs().max() <= 1e-9 * (1 + a.abs().max()), '%s %s differs from torchdiffeq with the same settings (adjoint: %s)', case['meth'], nm, adj)
    for adj in (False, True):
        expect_raises(lambda: G('odeint', case['meth'], use_adjoint_integration=adj, no_such_setting=1).integrate(f, torch.ones(2), t), 'further settings must be handed to the integrator', (TypeError,))
