"""C16  plateau learning-rate scheduler against an independent state machine."""
import math, copy
import torch
from lib.rt import *


def cases(tier, rng):
    base = dict(mode='min', factor=.1, patience=2, threshold=1e-4, tmode='rel', cooldown=0, min_lr=0, eps=1e-8, lrs=[.1])
    yield dict(base, m=[1.0] * 15)
    yield dict(base, m=[1.0] * 15, min_lr=.005)
    yield dict(base, m=[1.0] * 20, cooldown=3, patience=1)
    yield dict(base, m=[5, 4, 3, 3, 3, 3, 3, 4, 4, 2, 2, 2, 2, 2, 1], patience=1, cooldown=2, lrs=[.1, .01], min_lr=[.05, 0.0])
    yield dict(base, m=[1, .99999, .99998, 1, 1, 1], patience=0)
    yield dict(base, mode='max', tmode='abs', threshold=.5, m=[1, 1.4, 1.6, 2.0, 2.2, 0, 0, 0, 0, 3], patience=1)
    nan, inf = math.nan, math.inf
    for mode in ('min', 'max'):
        yield dict(base, mode=mode, m=[1, 2, nan, nan, nan, nan, 3, nan, 4, nan, nan, nan], patience=1)
        yield dict(base, mode=mode, m=[nan] * 6 + [inf, -inf, 1, 1, 1, 1, inf, inf, inf, -inf, -inf], patience=1, tmode='abs')
    yield dict(base, kind='refuse')
    n = ncases(tier, 120, 1500)
    for j in range(n):
        ng = rsize(rng, 1, 3, 12)
        vals = [rng.choice([rng.uniform(-2, 2), rng.randint(0, 3), 1.0, 1.0, nan if rng.random() < .2 else 2.0, rng.choice([inf, -inf]) if rng.random() < .1 else .5]) for _ in range(rsize(rng, 1, 30, 120))]
        yield dict(mode=rng.choice(['min', 'max']), factor=rng.choice([.1, .5, .9]), patience=rsize(rng, 0, 4), threshold=abs(rfloat(rng, [0, 1e-4, .1, .5])), tmode=rng.choice(['rel', 'abs']), cooldown=rsize(rng, 0, 3),
                   min_lr=rng.choice([0, .01, [rng.choice([0, .02, .05]) for _ in range(ng)]]), eps=rng.choice([1e-8, .01]), lrs=[rng.choice([.1, .05, 1.0]) for _ in range(ng)], m=vals, reload=rng.randint(-1, 20), seed=j)


class Ref:
    def __init__(s, c):
        s.c = c; s.lr = list(c['lrs']); n = len(s.lr)
        s.min = list(c['min_lr']) if isinstance(c['min_lr'], list) else [c['min_lr']] * n
        s.best = math.inf if c['mode'] == 'min' else -math.inf
        s.bad = 0; s.cool = 0; s.conv = False

    def better(s, a):
        t = s.c['threshold']
        b = s.best
        if s.c['mode'] == 'min':
            return a < (b * (1. - t) if s.c['tmode'] == 'rel' else b - t)
        return a > (b * (t + 1.) if s.c['tmode'] == 'rel' else b + t)

    def step(s, a):
        if s.better(a):
            s.best = a; s.bad = 0
        else:
            s.bad += 1
        if s.cool > 0:
            s.cool -= 1; s.bad = 0
        if s.bad > s.c['patience']:
            for i in range(len(s.lr)):
                new = max(s.lr[i] * s.c['factor'], s.min[i])
                if s.lr[i] - new > s.c['eps']:
                    s.lr[i] = new
                    s.best = math.inf if s.c['mode'] == 'min' else -math.inf      # start over after a reduction
                else:
                    s.conv = True
            s.cool = s.c['cooldown']; s.bad = 0


def check_case(case):
    cl = mod('custom_lr_scheduler')
    K = get(cl, 'CustomReduceLROnPlateau')
    mk = lambda: torch.optim.SGD([dict(params=[torch.nn.Parameter(torch.zeros(1))], lr=l) for l in case['lrs']], lr=1.)
    kw = dict(mode=case['mode'], factor=case['factor'], patience=case['patience'], threshold=case['threshold'], threshold_mode=case['tmode'], cooldown=case['cooldown'], min_lr=case['min_lr'], eps=case['eps'])
    if case.get('kind') == 'refuse':
        for bad in (dict(mode='x'), dict(threshold_mode='x'), dict(factor=1.0), dict(factor=2.), dict(min_lr=[0., 0.])):
            expect_raises(lambda: K(mk(), **dict(kw, **bad)), 'invalid option %s must be refused' % bad, (ValueError,))
        expect_raises(lambda: K(object(), **kw), 'something that is not an optimizer must be refused', (TypeError,))
        return
    o = mk()
    s = K(o, **kw)
    r = Ref(case)
    ensure(s.has_convergence_been_reached() is False, 'converged before the first step')
    for i, m in enumerate(case['m']):
        if i == case.get('reload'):
            st = copy.deepcopy(s.state_dict())
            s = K(o, **kw)
            s.load_state_dict(st)
        s.step(m); r.step(m)
        lr = [g['lr'] for g in o.param_groups]
        ensure(lr == r.lr, 'step %d (metric %s): learning rates %s, expected %s', i, m, lr, r.lr)
        ensure(bool(s.has_convergence_been_reached()) == r.conv, 'step %d: convergence flag %s, expected %s', i, s.has_convergence_been_reached(), r.conv)
        ensure(all(a >= b or a == l0 for a, b, l0 in zip(lr, r.min, case['lrs'])), 'learning rate below its lower bound')
