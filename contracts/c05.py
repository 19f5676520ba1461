"""C05  every nonlinearity is delivered with its own derivative."""
import math, torch
from lib.rt import *

NAMES = ['identity', 'relu', 'tanh', 'sigmoid', 'softmax', None]
REF = {None: lambda x: x, 'identity': lambda x: x, 'relu': lambda x: torch.clamp(x, min=0), 'tanh': torch.tanh, 'sigmoid': torch.sigmoid,
       'softmax': lambda x: x * torch.sigmoid(x)}


def cases(tier, rng):
    for n in NAMES:
        for v in ([n] if n is None else [n, n.upper(), n.capitalize()]):
            for dt in ('float64', 'float32'):
                for sh in ([41], [3, 1, 2], [1], [2, 3, 2, 2], [0]):
                    yield dict(name=v, base=n, dt=dt, sh=sh, seed=len(sh))
    for j in range(ncases(tier, 12, 120)):
        n = rng.choice(NAMES)
        v = n if n is None else ''.join(rng.choice([c.lower(), c.upper()]) for c in n)
        yield dict(name=v, base=n, dt=rng.choice(['float64', 'float32']), sh=[rsize(rng, 1, 5, 60) for _ in range(rsize(rng, 0, 4, 4))], scale=abs(rfloat(rng, [.1, 1., 7.])) or 1., seed=100 + j)
    for bad in ('relu_', '_tanh', ' tanh', 'relu6', 'leakyrelu', 'tanh\n', 'softmax2', 'sigmoi', 'identityrelu', 'nn.ReLU', '', 'lrelu', 'tan', 'softplus', 'identity ', 'none'):
        yield dict(bad=bad, seed=0)


def check_case(case):
    get_nl = mod('activation_functions_and_derivatives').get_nonlinearity
    if 'bad' in case:
        expect_raises(lambda: get_nl(case['bad']), 'an unknown nonlinearity must be refused', (ValueError,))
        return
    nl, dnl = get_nl(case['name'])
    dt = getattr(torch, case['dt'])
    n = 1
    for s in case['sh']:
        n *= s
    for scale in (1.0, 5.0, 40.0, case.get('scale', .01)):
        x = (torch.randn(n, dtype=torch.float64) * scale)
        if n > 10:
            x[:8] = torch.tensor([1e-3, -1e-3, 30., -30., 3., -3., 200., -800.], dtype=torch.float64)
        x = x.to(dt).reshape(case['sh']).requires_grad_(True)
        keep = x.detach().clone()
        y = nl(x)
        d = dnl(x)
        ensure(same(x.detach(), keep), 'argument was modified')
        ensure(tuple(y.shape) == tuple(x.shape) and tuple(d.shape) == tuple(x.shape), 'result is not elementwise')
        ensure(y.dtype == dt and d.dtype == dt, 'result type %s %s, argument type %s', y.dtype, d.dtype, dt)
        tol = 1e-9 if dt == torch.float64 else 2e-5
        t_equal(y.detach(), REF[case['base']](x.detach()), 'nonlinearity value', tol)
        g, = torch.autograd.grad(y.sum(), x)
        t_equal(d.detach(), g, 'stated derivative versus differentiated nonlinearity', tol)
        # independent: difference quotient
        if dt == torch.float64 and n:
            h = 1e-5
            xd = x.detach()
            fd = (nl(xd + h) - nl(xd - h)) / (2 * h)
            m = (xd.abs() > 2 * h)
            ensure(((d.detach() - fd).abs()[m] < 1e-5).all(), 'stated derivative is not the slope of the nonlinearity')
    z = nl(torch.zeros(3, dtype=dt)); dz = dnl(torch.zeros(3, dtype=dt))
    ensure(((dz >= 0) & (dz <= 1)).all(), 'derivative at 0 outside the one-sided slopes')
    if case['base'] != 'relu':
        t_equal(dz, torch.autograd.functional.jacobian(lambda a: nl(a).sum(), torch.zeros(3, dtype=dt)), 'derivative at 0', 1e-6)
