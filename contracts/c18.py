"""C18  shooting block: input validation, flow of particles and data, chaining, registered parameters, output times."""
import torch
from lib.rt import *
from lib.models import *


def cases(tier, rng):
    i = 0
    for m in CAT:
        for ana in ((False, True) if CAT[m][3] else (False,)):
            yield dict(kind='flow', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, tmax=None, ana=ana, seed=i); i += 1
    for m in ('updown', 'simple', 'conv'):
        yield dict(kind='flow', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=3, tmax=2.0, ana=False, seed=i); i += 1
        yield dict(kind='flow', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=3, tmax=None, ana=False, settime=.5, seed=i); i += 1
        yield dict(kind='split', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, seed=i); i += 1
        yield dict(kind='times', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, seed=i); i += 1
        yield dict(kind='chain', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, times=False, seed=i); i += 1
        yield dict(kind='chain', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, times=True, seed=i); i += 1
        if m != 'conv':
            for ex in (1, 2):
                yield dict(kind='chain', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, times=ex == 1, lead=ex, seed=i); i += 1
        yield dict(kind='move', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, seed=i); i += 1
    for m in INITS:
        for mode in INITS[m]:
            yield dict(kind='flow', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, tmax=None, ana=False, init=mode, seed=i); i += 1
    for m in ('updown', 'conv'):
        yield dict(kind='asked', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, seed=i); i += 1
    yield dict(kind='convert', model='updown', nl='tanh', w=None, N=3, d=2, infl=2, n=2, seed=i); i += 1
    for m in ('updown', 'simple', 'universal'):
        for ex in (0, 1, 2):
            yield dict(kind='joint', model=m, nl='tanh', w=None, N=3, d=2, infl=2, n=2, lead=ex, seed=i); i += 1
    for sd in (0, 1):
        yield dict(kind='again', model='updown', nl='tanh', w=None, N=3, d=2, infl=2, n=2, seed=sd)
    yield dict(kind='refuse', model='updown', nl='tanh', N=3, d=2, infl=2, seed=0)
    yield dict(kind='nocat', model='updown', nl='tanh', N=3, d=2, infl=2, n=2, seed=0)
    n = ncases(tier, 10, 120)
    for j in range(n):
        m = rng.choice(list(CAT))
        yield dict(kind=rng.choice(['flow', 'split', 'times', 'chain']), model=m, nl=rng.choice(['tanh', 'sigmoid']), w=rng.choice([None, 2.]), N=rsize(rng, 1, 4), d=rng.choice([2, 4]), infl=rsize(rng, 1, 3, 10), n=rsize(rng, 1, 3), tmax=rng.choice([None, .5, 1.5]), ana=False, times=rng.random() < .5, seed=100 + j)


INITS = {'updown': ['direct', 'linear', 'mini_nn'], 'universal': ['linear'], 'updownconv': ['linear', 'mini_nn']}
H = 0.25


def block(case, name='blk', **kw):
    sb = mod('shooting_blocks')
    mk = {}
    for k in list(kw):
        if k in ('is_pass_through', 'in_features', 'use_analytic_solution', 'concatenate_parameters', 'optimize_over_data_initial_conditions', 'optimize_over_data_initial_conditions_type', 'particle_size', 'particle_dimension'):
            mk[k] = kw.pop(k)
    m = make(case, **mk)
    return sb.ShootingBlockBase(name=name, shooting_integrand=m, integrator_name='rk4', integrator_options={'step_size': H}, **kw), m


def rk4(f, y, t0, t1, h=H):
    """3/8-rule Runge-Kutta as in torchdiffeq's fixed-grid rk4"""
    n = max(1, int(round((t1 - t0) / h)))
    h = (t1 - t0) / n
    t = t0
    for _ in range(n):
        T = lambda a: torch.tensor(a)
        k1 = f(T(t), y); k2 = f(T(t + h / 3), y + h * k1 / 3); k3 = f(T(t + 2 * h / 3), y + h * (k2 - k1 / 3)); k4 = f(T(t + h), y + h * (k1 - k2 + k3))
        y = y + h * (k1 + 3 * (k2 + k3) + k4) / 8
        t += h
    return y


def cat2(d, dim):
    """dict of blocks -> one dict with the blocks joined in key order"""
    ks = list(d[list(d)[0]].keys())
    return SD({k: torch.cat([d[b][k] for b in d], dim) for k in ks})


def check_case(case):
    torch.set_default_dtype(torch.float64)
    globals()[case['kind']](case)


def soft(b):
    with torch.no_grad():
        for k, p in b.named_parameters():
            p.mul_(0.5)


def flow(case):
    kw = dict(use_analytic_solution=True) if case.get('ana') else {}
    if case.get('init'):
        kw.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=case['init'])
    b, m = block(case, max_integration_time=case['tmax'], **kw)
    if case.get('settime'):
        b.set_integration_time(case['settime'])
    expect_raises(lambda: list(b.parameters()), 'parameters() before the first forward pass must be refused', (ValueError,))
    x = torch.randn(*shapes(case, case['n'])['q1'])
    keep = x.clone()
    before = {k: v.detach().clone() for k, v in b.named_parameters()}
    y, s, c, d = b(x=x)
    ensure(same(x, keep), 'input modified')
    keys = CAT[case['model']][2]
    names = [n for n, _ in b.named_parameters()]
    want = set(keys) | set('p_' + k for k in keys) | set(n.replace('.', '__') for n, _ in m.named_parameters())
    ensure(set(n for n in names if not n.startswith('shooting_integrand.')) == want, 'registered parameters %s, expected %s', names, sorted(want))
    ensure(len(list(b.parameters())) == len(want), '%d parameters to optimise, expected %d', len(list(b.parameters())), len(want))
    T = case.get('settime') or case['tmax'] or 1.0
    s0 = SD({'blk': SD({k: b._parameters[k] for k in keys})}); c0 = SD({'blk': SD({'p_' + k: b._parameters['p_' + k] for k in keys})})
    d0 = SD({'blk': m.get_initial_data_dict_from_data_tensor(x)})
    v, plan = m.assemble_tensor(s0, c0, d0)
    m.set_auto_assembly_plans(plan)
    ws, wc, wd = m.disassemble_tensor(rk4(m, v, 0.0, float(T)))
    dd_equal(s, ws, 'state at the final time', 1e-6); dd_equal(c, wc, 'costate at the final time', 1e-6); dd_equal(d, wd, 'data at the final time', 1e-6)
    t_equal(y, wd['blk']['q1'], 'returned tensor is the first data state at the final time', 1e-6)
    y2 = b(x=x)[0]
    t_equal(y2, y, 'second forward pass', 1e-12)
    for z in (torch.cat((x, torch.randn_like(x), 2 * x)), x[:1]):
        w = b(x=z)
        ensure(w[0].shape == z.shape[:1] + y.shape[1:], 'a pass over %d samples returns %s', z.shape[0], tuple(w[0].shape))
        k = min(len(z), len(x))
        t_equal(w[0][:k], y[:k], 'pass over a batch of another size', 1e-9)
        dd_equal(w[1], s, 'final states do not depend on the batch', 1e-9)
    ensure(all(same(before[k], v.detach()) for k, v in b.named_parameters()), 'parameters changed by a forward pass')
    # gradients reach states, costates and the initial condition parameters
    g = torch.autograd.grad(y.pow(2).sum(), [b._parameters[k] for k in sorted(want)], allow_unused=True)
    ensure(any(v is not None and not float(v.abs().sum()) == 0 for v in g), 'no gradient reaches the parameters of the block')
    if case.get('init'):
        ps = [b._parameters[n.replace('.', '__')] for n, _ in m.named_parameters()]
        g = torch.autograd.grad(b(x=x)[0].pow(2).sum(), ps, allow_unused=True)
        ensure(all(v is not None for v in g), 'the registered initial condition parameters receive no gradient')


def split(case):
    """a pass-through block continues the flow: [0,1] then [0,1] equals [0,2]"""
    b1, m1 = block(case, 'b1')
    soft(b1)
    x = torch.randn(*shapes(case, case['n'])['q1'])
    y, s, c, d = b1(x=x)
    b2, m2 = block(case, 'b2', is_pass_through=True)
    ensure(len(list(b2.named_parameters())) == 0, 'pass-through block has parameters')
    y2, s2, c2, d2 = b2(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    ensure(list(s2) == ['b2'] and list(c2) == ['b2'] and list(d2) == ['b2'], 'output blocks %s %s %s', list(s2), list(c2), list(d2))
    b1.set_integration_time(2.0)
    w, ws, wc, wd = b1(x=x)
    for got, want, nm in ((s2, ws, 'state'), (c2, wc, 'costate'), (d2, wd, 'data')):
        d_equal(got['b2'], want['b1'], nm + ' after the pass-through block', 1e-5)
    t_equal(y2, w, 'output', 1e-5)


def times(case):
    b, m = block(case)
    soft(b)
    x = torch.randn(*shapes(case, case['n'])['q1'])
    tv = torch.tensor([0., .5, 1.0, 1.5])
    b.set_integration_time_vector(tv, suppress_warning=True)
    y, s, c, d = b(x=x)
    ensure(tuple(y.shape) == (4,) + tuple(x.shape), 'output over %d times has shape %s', 4, tuple(y.shape))
    t_equal(y[0], x, 'output at the first time')
    for i, t in enumerate(tv):
        for dd in (s, c, d):
            for k in dd['blk']:
                ensure(dd['blk'][k].shape[0] == 4, 'time is not the leading dimension')
        if t > 0:
            b.set_integration_time(float(t))
            w, ws, wc, wd = b(x=x)
            t_equal(y[i], w, 'output at time %g' % t, 1e-5)
            for got, want in ((s, ws), (c, wc), (d, wd)):
                for k in want['blk']:
                    t_equal(got['blk'][k][i], want['blk'][k], 'time %g, %s' % (t, k), 1e-5)


def chain(case):
    """second block with particles of its own: blocks are joined, new data channels start at zero"""
    if CAT[case['model']][1] != 'vec':
        kw = dict(in_features=2 * case['d'])
    else:
        kw = dict(in_features=2 * case['d'])
    dim = 2 if CAT[case['model']][1] == 'vec' else 1
    b1, m1 = block(case, 'zz1')
    soft(b1)
    x = torch.randn(*shapes(case, case['n'])['q1'])
    y, s, c, d = b1(x=x)
    ex = case.get('lead', 0)
    if ex:
        # data with further leading dimensions (several starting points, several times, ...)
        d = SD({b: SD({k: torch.randn(*[2, 3][:ex], *v.shape) for k, v in e.items()}) for b, e in d.items()})
    b2, m2 = block(case, 'aa2', **kw)
    soft(b2)
    if case.get('times'):
        b2.set_integration_time_vector(torch.tensor([0., .5, 1.]), suppress_warning=True)
    sn = snapshot(s), snapshot(c), snapshot(d)
    y2, s2, c2, d2 = b2(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    unchanged(s, sn[0]); unchanged(c, sn[1]); unchanged(d, sn[2])
    keys = CAT[case['model']][2]
    own = SD({k: b2._parameters[k] for k in keys}); oc = SD({'p_' + k: b2._parameters['p_' + k] for k in keys})
    zero = SD()
    for k in keys:
        sh = list(d['zz1'][k].shape); sh[dim + ex] = own[k].shape[dim]
        zero[k] = torch.zeros(sh)
    v, plan = m2.assemble_tensor(SD({'aa2': own, 'zz1': s['zz1']}), SD({'aa2': oc, 'zz1': c['zz1']}), SD({'aa2': zero, 'zz1': d['zz1']}))
    m2.set_auto_assembly_plans(plan)
    for i, T in enumerate((0., .5, 1.) if case.get('times') else (1.0,)):
        ws, wc, wd = m2.disassemble_tensor(rk4(m2, v, 0.0, T) if T > 0 else v)
        pick = (lambda a: a[i]) if case.get('times') else (lambda a: a)
        for got, want, nm in ((s2, ws, 'state'), (c2, wc, 'costate'), (d2, wd, 'data')):
            ensure(list(got) == ['aa2'], '%s blocks %s', nm, list(got))
            w = cat2(want, dim + (ex if nm == 'data' else 0))
            for k in w:
                ensure(tuple(pick(got['aa2'][k]).shape) == tuple(w[k].shape), '%s %s at time %g has shape %s, expected %s', nm, k, T, tuple(pick(got['aa2'][k]).shape), tuple(w[k].shape))
                t_equal(pick(got['aa2'][k]), w[k], '%s %s at time %g' % (nm, k, T), 1e-5)
        t_equal(pick(y2), cat2(wd, dim + ex)['q1'], 'output at time %g' % T, 1e-5)


def joint(case):
    """a block without particles of its own continues several blocks, data with further leading dimensions"""
    ex = case['lead']
    b, m = block(case, 'pt', is_pass_through=True, in_features=2 * case['d'])
    soft(b)
    sh, sd = shapes(case), shapes(case, case['n'])
    s, c, d = (SD({n: SD({pre + k: torch.randn(*([2, 3][:ex] if pre == 'd' else []), *(sd if pre == 'd' else sh)[k]) for k in sh}) for n in ('v', 'u')}) for pre in ('', 'p_', 'd'))
    d = SD({n: SD({k[1:]: t for k, t in e.items()}) for n, e in d.items()})
    sn = snapshot(s), snapshot(c), snapshot(d)
    y, s2, c2, d2 = b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d)
    unchanged(s, sn[0]); unchanged(c, sn[1]); unchanged(d, sn[2])
    rm = m
    one = [SD({'j': cat2(e, 2 + o)}) for e, o in ((s, 0), (c, 0), (d, ex))]
    v, plan = rm.assemble_tensor(*one)
    rm.set_auto_assembly_plans(plan)
    rm.set_data_concatenation_dim(2 + ex)
    ws = rm.disassemble_tensor(rk4(rm, v, 0., 1.))
    for got, want, nm in zip((s2, c2, d2), ws, ('state', 'costate', 'data')):
        d_equal(got['pt'], want['j'], nm + ' of a block continuing two blocks, %d extra data dimensions' % ex, 1e-5)
    t_equal(y, ws[2]['j']['q1'], 'output of a block continuing two blocks', 1e-5)


def again(case):
    """what a call returns does not depend on the earlier calls of the block"""
    b1, _ = block(case, 'zz1')
    soft(b1)
    x = torch.randn(*shapes(case, case['n'])['q1'])
    _, s, c, d = b1(x=x)
    kw = dict(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c)
    lead = SD({b: SD({k: torch.randn(3, *v.shape) for k, v in e.items()}) for b, e in d.items()})
    lead2 = SD({b: SD({k: torch.randn(2, 2, *v.shape) for k, v in e.items()}) for b, e in d.items()})
    b2, _ = block(case, 'aa2', in_features=2 * case['d'])
    soft(b2)
    calls = [dict(data_dict_of_dicts=d), dict(x=torch.randn(4, *x.shape[1:-1], 2 * case['d'])), dict(data_dict_of_dicts=lead), dict(data_dict_of_dicts=lead2)]
    first = {}
    for i in (0, 1, 0, 2, 1, 3, 0, 2, 3, 1, 1):
        r = b2(**calls[i], **kw)
        ensure(len(list(b2.parameters())) >= 4, 'parameters after a pass')
        if i in first:
            t_equal(r[0], first[i][0], 'output of a repeated call', 1e-6)
            for got, want, nm in zip(r[1:], first[i][1:], ('state', 'costate', 'data')):
                dd_equal(got, want, nm + ' of a repeated call', 1e-6)
        first.setdefault(i, r)


def nocat(case):
    b1, m1 = block(case, 'b1', concatenate_parameters=True)
    x = torch.randn(*shapes(case, case['n'])['q1'])
    _, s, c, d = b1(x=x)
    ensure(list(s) == ['b1'] and list(s['b1']) == CAT[case['model']][2], 'blocks %s', list(s))
    m1.concatenate_parameters_off(); ensure(m1.concatenate_parameters is False, 'off'); m1.concatenate_parameters_on(); ensure(m1.concatenate_parameters is True, 'on')


def move(case):
    b, m = block(case)
    x = torch.randn(*shapes(case, case['n'])['q1'])
    y = b(x=x)[0]
    b.to('cpu')
    t_equal(b(x=x)[0], y, 'moved block')
    b.set_integration_time_vector(torch.tensor([0., 1.]), suppress_warning=True)
    b.to('cpu')
    t_equal(b(x=x)[0][-1], y, 'moved block with output times', 1e-8)
    b.double()
    t_equal(b(x=x)[0][-1], y, 'moved block with output times', 1e-8)


class Rec(object):
    """integrator that records what it is asked to integrate"""
    def __init__(self):
        self.times = []

    def integrate(self, func, x0, t):
        self.times.append(t)
        return torch.stack([x0] * len(t))


def asked(case):
    sb = mod('shooting_blocks')
    x = torch.randn(*shapes(case, case['n'])['q1'])
    for T in (0.1, 0.3337, 1.0 / 3, 17.0101, 1e-5, -0.7, 2500.037):
        for via in ('max', 'set'):
            r = Rec()
            b = sb.ShootingBlockBase(name='blk', shooting_integrand=make(case), integrator=r, **(dict(max_integration_time=T) if via == 'max' else {}))
            if via == 'set':
                b.set_integration_time(T)
            b(x=x)
            t = r.times[-1]
            ensure(len(t) == 2 and float(t[0]) == 0 and abs(float(t[1]) - T) <= 1e-6 * abs(T), 'asked for the time %r, integrated over %s', T, [float(v) for v in t])
    for tv in ([0., -.3, -.7], [0., .1, .1, .4], [.2, .9, 3.7], [1., .5, .25]):
        r = Rec()
        b = sb.ShootingBlockBase(name='blk', shooting_integrand=make(case), integrator=r)
        b.set_integration_time_vector(torch.tensor(tv), suppress_warning=True)
        y = b(x=x)[0]
        ensure([float(v) for v in r.times[-1]] == [float(v) for v in torch.tensor(tv)], 'asked for the times %s, integrated at %s', tv, [float(v) for v in r.times[-1]])
        ensure(y.shape[0] == len(tv), '%d output times, %d results', len(tv), y.shape[0])


def convert(case):
    b, m = block(case)
    x = torch.randn(*shapes(case, case['n'])['q1'])
    y = b(x=x)[0]
    n = len(list(b.parameters()))
    for f in (lambda: b.double(), lambda: b.to('cpu'), lambda: b.float(), lambda: b.double()):
        f()
        ensure(len(list(b.parameters())) == n, 'parameters of a converted block')
    t_equal(b(x=x)[0], y, 'converted block', 1e-3)


def refuse(case):
    sb = mod('shooting_blocks')
    b, m = block(case)
    x = torch.randn(*shapes(case, 2)['q1'])
    z = block(case, 'first')[0]
    _, s, c, d = z(x=x)
    V = (ValueError,)
    expect_raises(lambda: b(), 'no input', V)
    expect_raises(lambda: b(x=x, pass_through_state_dict_of_dicts=s), 'state without costate', V)
    expect_raises(lambda: b(x=x, pass_through_costate_dict_of_dicts=c), 'costate without state', V)
    expect_raises(lambda: b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c), 'no data', V)
    expect_raises(lambda: b(x=x, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d), 'x and data', V)
    expect_raises(lambda: sb.ShootingBlockBase(name='n'), 'no integrand', V)
    expect_raises(lambda: sb.ShootingBlockBase(name='n', shooting_integrand=m, shooting_integrand_name='x'), 'two integrands', V)
    expect_raises(lambda: sb.ShootingBlockBase(name='n', shooting_integrand=make(case), use_particle_free_rnn_mode=True, use_particle_free_time_dependent_mode=True), 'both particle-free modes', V)
    expect_raises(lambda: list(b.parameters()), 'parameters before a forward pass', V)
    b(x=x)
    ensure(len(list(b.parameters())) == 4, 'parameters after a forward pass')
    # a block of the same name handed over cannot be merged
    expect_raises(lambda: block(case, 'first')[0](pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=d), 'name collision', V)
