"""C22  observation hooks see every evaluation exactly once and do not disturb it."""
import torch
from collections import defaultdict
from lib.rt import *
from lib.models import *


def cases(tier, rng):
    i = 0
    for m in ('updown', 'simple', 'universal', 'second', 'symm', 'periodic', 'general', 'dampq2'):
        for ana in ((False, True) if CAT[m][3] else (False,)):
            yield dict(kind='hooks', model=m, nl='tanh', w=None, N=3, d=2, infl=2, ana=ana, seed=i); i += 1
    for m in ('updown', 'simple'):
        for mode in ('particles', 'rnn', 'time'):
            yield dict(kind='record', model=m, nl='tanh', w=None, N=3, d=2, infl=2, mode=mode, seed=i); i += 1
    yield dict(kind='hooks', model='simple', nl='tanh', w=None, N=3, d=2, infl=2, ana=False, many=70, seed=i); i += 1
    yield dict(kind='hooks', model='updown', nl='tanh', w=None, N=2, d=2, infl=2, ana=True, many=12, seed=i); i += 1
    yield dict(kind='type', model='simple', nl='tanh', N=3, d=2, seed=0)
    for j in range(ncases(tier, 4, 40)):
        m = rng.choice(VEC)
        yield dict(kind='hooks', model=m, nl='tanh', w=rng.choice([None, 2.0]), N=rsize(rng, 1, 4), d=rng.choice([2, 3]), infl=rsize(rng, 1, 3, 12), ana=False, seed=100 + j)


def check_case(case):
    torch.set_default_dtype(torch.float64)
    sh = mod('shooting_hooks')
    if case['kind'] == 'type':
        expect_raises(lambda: sh.parameter_evolution_hook(None, torch.tensor(0.), SD(), SD(), SD(), SD(), SD(), SD(), SD(), dict()), 'a plain dictionary must be refused', (ValueError,))
        return
    if case['kind'] == 'record':
        return record(case, sh)
    m = make(case, use_analytic_solution=case['ana'])
    s, c, x = state(case, grad=False), state(case, pre='p_', grad=False), state(case, n=2, grad=False)
    v, plan = m.assemble_tensor(SD({'b': s}), SD({'b': c}), SD({'b': x}))
    m.set_auto_assembly_plans(plan)
    ref = m(torch.tensor(.5), v).detach()
    log = []
    def hook(name):
        def h(module, t, sd, cd, dd, dsd, dcd, ddd, po, data):
            ensure(module is m, 'hook gets another module')
            log.append((name, float(t), data))
            dd_equal(sd, SD({'b': s}), 'state seen by the hook'); dd_equal(cd, SD({'b': c}), 'costate seen by the hook'); dd_equal(dd, SD({'b': x}), 'data seen by the hook')
            if case['model'] != 'rnn':
                a, _ = m.assemble_tensor(dsd, dcd, ddd)
                t_equal(a.detach(), ref, 'derivatives seen by the hook', 1e-9)
            w = m.rhs_advect_state(t, s, po)
            for k in s:
                t_equal(dsd['b']['dot_' + k].detach(), w['dot_' + k].detach(), 'parameters seen by the hook', 1e-8)
        return h
    cd = {'epoch': 3}
    m.set_custom_hook_data(cd)
    h1 = m.register_lagrangian_gradient_hook(hook('one'))
    h2 = m.register_lagrangian_gradient_hook(hook('two'))
    for i in range(3):
        r = m(torch.tensor(.5), v)
        t_equal(r.detach(), ref, 'vector field with hooks')
    ensure([n for n, _, _ in log] == ['one', 'two'] * 3, 'hook calls %s', [n for n, _, _ in log])
    ensure(all(d is cd for _, _, d in log) and all(t == .5 for _, t, _ in log), 'hook arguments')
    log.clear(); h1.remove(); m(torch.tensor(.5), v)
    ensure([n for n, _, _ in log] == ['two'], 'hook calls after removing the first %s', [n for n, _, _ in log])
    log.clear(); h2.remove(); m(torch.tensor(.5), v)
    ensure(log == [], 'removed hooks are still called')
    many = [m.register_lagrangian_gradient_hook(hook(str(i))) for i in range(case.get('many', 0))]
    for rep in range(2 if many else 0):
        m(torch.tensor(.5), v)
        ensure([n for n, _, _ in log] == [str(i) for i in range(len(many))], 'hook calls of many hooks %s', [n for n, _, _ in log])
        log.clear()
    for i in range(0, len(many), 3):
        many[i].remove()
    m(torch.tensor(.5), v)
    ensure([n for n, _, _ in log] == [str(i) for i in range(len(many)) if i % 3], 'hook calls after removing every third %s', [n for n, _, _ in log])
    for h in many:
        h.remove()
    log.clear()
    f, g = hook('f'), hook('g')
    hs = [m.register_lagrangian_gradient_hook(h) for h in (f, g, f)]
    for rm, want in ((None, ['f', 'g', 'f']), (0, ['g', 'f']), (2, ['g']), (1, [])):
        if rm is not None:
            hs[rm].remove()
        log.clear(); m(torch.tensor(.5), v)
        ensure([n for n, _, _ in log] == want, 'calls of a function registered twice %s, expected %s', [n for n, _, _ in log], want)


def record(case, sh):
    sb = mod('shooting_blocks')
    m = make(case)
    kw = dict(particles={}, rnn=dict(use_particle_free_rnn_mode=True), time=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2))[case['mode']]
    b = sb.ShootingBlockBase(name='b', shooting_integrand=m, integrator_name='euler', integrator_options={'step_size': .25}, **kw)
    x = torch.randn(*shapes(case, 2)['q1'])
    y0 = b(x=x)[0].detach().clone()
    live = []
    spy = m.register_lagrangian_gradient_hook(lambda module, t, sd, cd, dd, dsd, dcd, ddd, po, data: live.append((float(t), snapshot(sd), snapshot(cd), snapshot(dd), snapshot(dsd), snapshot(dcd), snapshot(ddd), {'%s.%s' % (o, k): v.detach().clone() for o in po for k, v in po[o].get_parameter_dict().items()})))
    seen = []

    def keep(module, t, *a):
        seen.extend(v.detach() for g in a[:6] for d in g.values() for v in d.values())
        seen.extend(v.detach() for o in a[6].values() for v in o.get_parameter_dict().values())
    data = defaultdict(list)
    m.set_custom_hook_data(data)
    h = m.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    kept = m.register_lagrangian_gradient_hook(keep)
    y = b(x=x)[0].detach().clone()
    t_equal(y, y0, 'output with the recording hook')
    with torch.no_grad():
        for p in b.parameters():
            p.add_(1.0)              # as an optimiser step would
        for p in seen:
            p.add_(1.0)              # what was observed belongs to the evaluation, the record does not
    n = len(live)
    ensure(n > 0 and all(len(v) == n for v in data.values()), 'number of recorded entries %s for %d evaluations', {k: len(v) for k, v in data.items()}, n)
    exp = ['t', 'energy'] + ['sum_sqr_%s_norm' % q for q in ('frobenius', 'nuclear', 'spectral')]
    for i, (t, sd, cd, dd, dsd, dcd, ddd, po) in enumerate(live):
        ensure(data['t'][i] == t, 'recorded time')
        for nm, d in (('state', sd), ('costate', cd), ('data', dd), ('dot_state', dsd), ('dot_costate', dcd), ('dot_data', ddd)):
            for k in d['b']:
                key = 'b.%s.%s' % (nm, k)
                ensure(key in data, 'missing record %s', key)
                ensure(same(torch.as_tensor(data[key][i]), d['b'][k]), 'recorded %s of evaluation %d is not the value at that evaluation', key, i)
        for k, v in po.items():
            ensure(same(torch.as_tensor(data[k][i]), v), 'recorded parameter %s of evaluation %d is not the value at that evaluation', k, i)
        e = sum(0.5 * float((v ** 2).sum()) for v in po.values())
        ensure(abs(data['energy'][i] - e) <= 1e-6 * max(1, e), 'recorded energy %r, expected %r', data['energy'][i], e)
        fr = sum(float((v ** 2).sum()) for k, v in po.items() if not k.endswith('.bias'))
        ensure(abs(float(data['sum_sqr_frobenius_norm'][i]) - fr) <= 1e-6 * max(1, fr), 'recorded Frobenius norm')
    h.remove(); spy.remove(); kept.remove()
