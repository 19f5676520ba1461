"""C20  complexity measures: time integral of the log2 of the mean of consecutive squared norms."""
import math
import torch
from lib.rt import *


def cases(tier, rng):
    yield dict(kind='m', t=[0., .5, 1.], f=[1., 2., 4.], n=[1., 1., 1.], s=[8., 8., 2.])
    yield dict(kind='m', t=[0., .5, 0., .5, 1.], f=[1., 2., 4., 3., 3.], n=[1., 1., 1., 5., 1.], s=[8., 8., 2., .1, .2])
    yield dict(kind='m', t=[0.], f=[1.], n=[1.], s=[1.])
    yield dict(kind='m', t=[0, 1, 2], f=[1, 2, 4], n=[1, 1, 1], s=[8, 8, 2])
    for k in (101, 257, 1025):
        yield dict(kind='m', t=[(i % 100) * .01 for i in range(k)], f=[1. + (i * 7 % 11) for i in range(k)], n=[.25 + (i * 5 % 13) for i in range(k)], s=[.5 + (i * 3 % 17) for i in range(k)])
    n = ncases(tier, 60, 600)
    for j in range(n):
        k = rsize(rng, 1, 12, 60)
        t = sorted(rng.uniform(0, 2) for _ in range(k)) if rng.random() < .6 else [rng.uniform(0, 2) for _ in range(k)]
        yield dict(kind='m', t=t, f=[rng.uniform(1e-3, 10) for _ in range(k)], n=[rng.uniform(1e-3, 10) for _ in range(k)], s=[rng.uniform(1e-3, 10) for _ in range(k)], seed=j)
    for j in range(6):
        yield dict(kind='norms', shapes=[[rng.randint(1, 4), rng.randint(1, 4)] for _ in range(rng.randint(1, 3))], seed=j)


def ref(t, v):
    r = 0.0
    for i in range(len(t) - 1):
        r += max(t[i + 1] - t[i], 0.0) * math.log2((v[i] + v[i + 1]) / 2)
    return r


def check_case(case):
    if case['kind'] == 'norms':
        return norms(case)
    f = get('validation_measures', 'compute_complexity_measures')
    d = dict(t=list(case['t']), sum_sqr_frobenius_norm=list(case['f']), sum_sqr_nuclear_norm=list(case['n']), sum_sqr_spectral_norm=list(case['s']))
    snap = {k: list(v) for k, v in d.items()}
    r = f(d)
    ensure(d == snap, 'recorded data modified')
    for k, v in (('log2_frobenius', case['f']), ('log2_nuclear', case['n']), ('log2_spectral', case['s'])):
        w = ref(case['t'], v)
        ensure(abs(float(r[k]) - w) <= 1e-9 * max(1, abs(w)), '%s is %r, expected %r', k, float(r[k]), w)
    ensure(len(r) == 3, 'measures %s', list(r))


def norms(case):
    torch.set_default_dtype(torch.float64)
    oc, sh = mod('overwrite_classes'), mod('shooting_hooks')
    po = SD()
    for i, (a, b) in enumerate(case['shapes']):
        po['l%d' % i] = oc.SNN_Linear(a, b)
    r = sh.compute_parameter_norms(po)
    tot = dict(frobenius=0., nuclear=0., spectral=0.)
    for o in po:
        W = po[o].get_parameter_dict()['weight'].detach()
        S = torch.linalg.svdvals(W)
        v = dict(frobenius=float((W ** 2).sum()), nuclear=float(S.sum() ** 2), spectral=float(S.max() ** 2))
        for k in v:
            tot[k] += v[k]
            ensure(abs(float(r['sqr_%s_norm_%s.weight' % (k, o)]) - v[k]) < 1e-8 * max(1, v[k]), 'squared %s norm of %s', k, o)
    for k in tot:
        ensure(abs(float(r['sum_sqr_%s_norm' % k]) - tot[k]) < 1e-8 * max(1, tot[k]), 'sum of squared %s norms', k)
    ensure(not any('bias' in k for k in r), 'biases are not part of the norms')
    ensure(len(r) == 3 + 3 * len(po), 'norms %s', list(r))
