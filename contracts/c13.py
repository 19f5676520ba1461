"""C13  parameter-free layer copies compute what the standard layers compute."""
import torch, torch.nn as nn, torch.nn.functional as F
from lib.rt import *


def cases(tier, rng):
    i = 0
    for bias in (True, False):
        for w in (None, 2.0):
            for din, dout in ((2, 3), (1, 1), (5, 2)):
                yield dict(kind='lin', i=din, o=dout, bias=bias, w=w, seed=i); i += 1
                yield dict(kind='damp', i=din, o=din, bias=bias, w=w, seed=i); i += 1
    for bias in (True, False):
        for pm in ('zeros', 'circular', 'reflect', 'replicate'):
            for pad in (0, 1, 2, (1, 2), (2, 0), (0, 1)):
                yield dict(kind='conv', i=2, o=4, ks=3, st=1, pad=pad, dil=1, gr=1, bias=bias, pm=pm, seed=i); i += 1
    for st, dil, gr, ks in ((2, 1, 1, 3), (1, 2, 1, 3), (1, 1, 2, 3), ((2, 1), 1, 2, (3, 2)), (1, (1, 2), 1, 1)):
        for pm in ('zeros', 'circular'):
            yield dict(kind='conv', i=2, o=4, ks=ks, st=st, pad=1, dil=dil, gr=gr, bias=True, pm=pm, seed=i); i += 1
    for g, c in ((1, 4), (2, 4), (4, 4), (1, 1)):
        for aff in (True, False):
            for eps in (1e-5, 1e-2, 1e-12):
                yield dict(kind='gn', g=g, c=c, aff=aff, eps=eps, seed=i); i += 1
    for j in range(ncases(tier, 30, 300)):
        k = rng.choice(['lin', 'damp', 'conv', 'gn'])
        w = rfloat(rng, [None, 2.0, .3])
        a, b = rsize(rng, 1, 5), rsize(rng, 1, 5)
        if k in ('lin', 'damp'):
            yield dict(kind=k, i=a, o=a if k == 'damp' else b, bias=rng.random() < .6, w=w, seed=100 + j)
        elif k == 'conv':
            g = rng.choice([1, 1, 2])
            yield dict(kind='conv', i=a * g, o=b * g, ks=rng.choice([1, 2, 3, [3, 2]]), st=rng.choice([1, 2, [2, 1]]), pad=rng.choice([0, 1, 2, [1, 2], [2, 1], [0, 1]]), dil=rng.choice([1, 1, 2, [1, 2]]), gr=g,
                       bias=rng.random() < .6, pm=rng.choice(['zeros', 'circular', 'reflect', 'replicate']), w=w, seed=100 + j)
        else:
            g = rsize(rng, 1, 3)
            yield dict(kind='gn', g=g, c=g * rsize(rng, 1, 3, 10), aff=rng.random() < .6, eps=rng.choice([1e-5, 1e-2, .5, 1e-9, 1e-15]), w=w, seed=100 + j)


def check_case(case):
    oc = mod('overwrite_classes')
    k = case['kind']
    w = case.get('w')
    tt = lambda v: tuple(v) if isinstance(v, list) else v
    names = ['bias', 'weight']
    if k in ('lin', 'damp'):
        l = (oc.SNN_Linear if k == 'lin' else oc.SNN_LinearDampening)(case['i'], case['o'], bias=case['bias'], weight=w)
        ref = nn.Linear(case['i'], case['o'], bias=case['bias'])
        x = torch.randn(3, 1, case['i'])
        names = ['weight'] + (['bias'] if case['bias'] else []) + (['dampening'] if k == 'damp' else [])
    elif k == 'conv':
        kw = dict(kernel_size=tt(case['ks']), stride=tt(case['st']), padding=tt(case['pad']), dilation=tt(case['dil']), groups=case['gr'], bias=case['bias'], padding_mode=case['pm'])
        l = oc.SNN_Conv2d(case['i'], case['o'], weight=w, **kw)
        ref = nn.Conv2d(case['i'], case['o'], **kw)
        x = torch.randn(2, case['i'], 7, 8)
        names = ['weight'] + (['bias'] if case['bias'] else [])
    else:
        l = oc.SNN_GroupNorm(case['g'], case['c'], affine=case['aff'], eps=case['eps'], weight=w)
        ref = nn.GroupNorm(case['g'], case['c'], affine=case['aff'], eps=case['eps'])
        x = torch.randn(2, case['c'], 3, 4) * (min(1.0, 10 * case['eps'] ** .5) if case['seed'] % 2 else 1.0)     # a variance of the order of eps shows it
        names = ['weight', 'bias'] if case['aff'] else []
    pd = l.get_parameter_dict()
    ensure(sorted(pd.keys()) == sorted(names), 'parameters %s, expected %s', sorted(pd.keys()), sorted(names))
    ensure(list(l.parameters()) == [], 'the layer still registers %d trainable parameters', len(list(l.parameters())))
    wd = l.get_parameter_weight_dict()
    for n in pd:
        ensure(isinstance(pd[n], torch.Tensor) and not isinstance(pd[n], nn.Parameter) and pd[n].requires_grad and pd[n].is_leaf, '%s is not a differentiable variable', n)
        ensure(wd[n] == w, 'weight of %s is %s, expected %s', n, wd[n], w)
    if k == 'damp':
        ensure(tuple(pd['dampening'].shape) == (1,) and abs(float(pd['dampening']) - 0.1) < 1e-7, 'dampening starts at %s', pd['dampening'])
    rp = dict(ref.named_parameters())
    for n in rp:
        ensure(tuple(pd[n].shape) == tuple(rp[n].shape), 'shape of %s', n)
        pd[n] = torch.randn_like(pd[n]).requires_grad_(True)
        with torch.no_grad():
            rp[n].copy_(pd[n])
    xr = x.clone().requires_grad_(True)
    if k == 'damp':
        dx = torch.randn(3, 1, case['o'])
        pd['dampening'] = torch.tensor([0.37]).requires_grad_(True)
        y = l(x, dx)
        want = ref(x) - 0.37 * dx
    else:
        y = l(x)
        want = ref(x)
    t_equal(y, want, 'layer output versus the standard layer', 1e-5)
    # gradients reach exactly the variables of the dictionary
    if pd:
        g = torch.autograd.grad(y.pow(2).sum(), [pd[n] for n in rp])
        h = torch.autograd.grad(want.pow(2).sum(), [rp[n] for n in rp])
        for n, a, b in zip(rp, g, h):
            t_equal(a, b, 'gradient with respect to ' + n, 1e-4)
    if pd:
        n0 = sorted(pd)[0]
        for iw in (0.0, None, 1, -2.5, 7.5):
            l.add_weight(n0, iw)
            ensure(l.get_parameter_weight_dict()[n0] == iw, 'individual weight %r not stored', iw)
        ensure(all(l.get_parameter_weight_dict()[n] == w for n in pd if n != n0), 'individual weight changed another weight')
    expect_raises(lambda: l.add_weight('nosuch', 1.0), 'a weight for an unknown parameter must be refused', (ValueError,))
    # type conversion moves every variable
    l.to(torch.float64)
    pd = l.get_parameter_dict()
    ensure(all(v.dtype == torch.float64 for v in pd.values()), 'to() left a variable behind')
    l.to(torch.float64)
    l.double()
    if pd:
        y = l(x.double(), dx.double()) if k == 'damp' else l(x.double())
        g = torch.autograd.grad(y.pow(2).sum(), [l.get_parameter_dict()[n] for n in rp])
        for n, a, b in zip(rp, g, h):
            t_equal(a.float(), b, 'gradient after conversion with respect to ' + n, 1e-3)
    if k == 'damp':
        t_equal(l(x.double(), dx.double()).float(), want, 'output after conversion', 1e-4)
    else:
        t_equal(l(x.double()).float(), want, 'output after conversion', 1e-4)
