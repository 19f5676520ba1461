"""C19  freezing and counting parameters."""
import torch
from lib.rt import *
from lib.models import *


def cases(tier, rng):
    for j in range(ncases(tier, 30, 300)):
        names = ['a', 'b', 'c', 'dd', 'e'][:rng.randint(1, 5)]
        sh = [[rsize(rng, 1, 4, 20) if rng.random() < .9 else 0 for _ in range(rng.randint(0, 3))] for _ in names]
        ops = [[rng.choice(['freeze', 'unfreeze']), rng.sample(names, rng.randint(0, len(names)))] for _ in range(rsize(rng, 1, 5))]
        yield dict(kind='module', names=names, shapes=sh, ops=ops, seed=j)
    yield dict(kind='nested', seed=0)
    yield dict(kind='huge', seed=0)
    for j in range(4):
        yield dict(kind='block', model=['updown', 'simple', 'conv', 'universal'][j], N=3, d=2, infl=2, nl='tanh', seed=j)


def counts(m):
    f = sum(p.numel() for p in m.parameters() if not p.requires_grad)
    o = sum(p.numel() for p in m.parameters() if p.requires_grad)
    return dict(fixed=f, optimized=o, overall=f + o)


def check_case(case):
    u = mod('utils')
    if case['kind'] == 'huge':
        # only shapes matter for the counts: parameters without storage
        m = torch.nn.Module()
        for n, sh, rg in (('a', (70000, 70000), True), ('b', (46341, 46341), False), ('c', (4097, 4097), True), ('d', (), False), ('e', (0, 5), True)):
            m.register_parameter(n, torch.nn.Parameter(torch.empty(sh, device='meta'), requires_grad=rg))
        c = u.compute_number_of_parameters(m)
        ensure({k: int(v) for k, v in c.items()} == counts(m), 'counts %s, expected %s', c, counts(m))
        return
    if case['kind'] == 'nested':
        def leaf(n):
            x = torch.nn.Module()
            x.register_parameter('w', torch.nn.Parameter(torch.randn(n, 2)))
            x.register_parameter('b', torch.nn.Parameter(torch.randn(n)))
            return x
        m = torch.nn.Module()
        for q in ('x', 'y'):
            t = leaf(2)
            for lvl in range(5):
                s = leaf(lvl + 1)
                s.add_module('sub', t)
                s.add_module('other', leaf(3))
                t = s
            m.add_module(q, t)
        m.register_parameter('w', torch.nn.Parameter(torch.randn(4)))
        ns = [n for n, _ in m.named_parameters()]
        st = {n: True for n in ns}
        ops = [['freeze', ['w']], ['freeze', ns[5:9]], ['unfreeze', [ns[6], 'w']], ['freeze', ns], ['unfreeze', ns[::3]], ['freeze', [ns[0]]]]
    elif case['kind'] == 'module':
        class M(torch.nn.Module):
            pass
        m = M()
        for n, s in zip(case['names'], case['shapes']):
            m.register_parameter(n, torch.nn.Parameter(torch.randn(tuple(s))))
        st = {n: True for n in case['names']}
        ops = case['ops']
    else:
        sb = mod('shooting_blocks')
        m = sb.ShootingBlockBase(name='b', shooting_integrand=make(case), integrator_name='rk4', integrator_options={'step_size': .5})
        m(x=torch.randn(*shapes(case, 2)['q1']))
        ns = [n for n, _ in m.named_parameters()]
        st = {n: True for n in ns}
        ops = [['freeze', ns[:2]], ['freeze', [ns[0]]], ['unfreeze', [ns[1]]], ['freeze', ns], ['unfreeze', ns[::2]]]
    vals = {n: p.detach().clone() for n, p in m.named_parameters()}
    for op, names in ops:
        if op == 'freeze':
            u.freeze_parameters(m, parameters_to_freeze=names)
        else:
            u.unfreeze_parameters(m, parameters_to_unfreeze=names)
        for n in names:
            st[n] = op == 'unfreeze'
        got = {n: p.requires_grad for n, p in m.named_parameters()}
        ensure(got == st, 'after %s %s: trainable %s, expected %s', op, names, got, st)
        ensure(all(same(p.detach(), vals[n]) for n, p in m.named_parameters()), 'values changed')
        c = u.compute_number_of_parameters(m)
        ensure({k: int(v) for k, v in c.items()} == counts(m), 'counts %s, expected %s', c, counts(m))
    ensure({k: int(v) for k, v in u.compute_number_of_parameters(m, print_parameters=True).items()} == counts(m), 'counts with printing')
    expect_raises(lambda: u.freeze_parameters(m, parameters_to_freeze=['no_such_parameter']), 'an unknown name must be refused')
    d = u.divide_by_if_not_none
    t = torch.randn(3)
    ensure(d(t, None) is t or same(d(t, None), t), 'division by nothing')
    ensure(same(d(t, 2.0), t / 2.0) and same(d(t, 0.5), t / 0.5), 'division by a weight')
    import random, numpy as np
    draw = lambda: (random.random(), float(np.random.rand()), float(torch.rand(1)))
    for sd in (17, 0, 1, 123456, 2 ** 31):
        u.setup_random_seed(sd); a = draw()
        u.setup_random_seed(sd); b = draw()
        ensure(a == b, 'random numbers differ after setting the same seed %d', sd)
    sa = torch.get_rng_state(); u.setup_random_seed(-1)
    ensure(torch.equal(sa, torch.get_rng_state()), 'seed -1 must leave the generator alone')
