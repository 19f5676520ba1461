"""C08  the vector field handed to the integrator: layout, data follow the same flow as the particles, purity."""
import torch
from lib.rt import *
from lib.models import *


def cases(tier, rng):
    i = 0
    for m in CAT:
        for ana in ((False, True) if CAT[m][3] else (False,)):
            for nb in ((1,) if ana else (1, 2)):
                for n in (4, 1):
                    yield dict(model=m, nl='tanh', w=None, N=3, d=2, infl=2, ana=ana, nb=nb, n=n, seed=i); i += 1
    for m in ('updown', 'simple', 'second', 'conv', 'updownconv'):
        yield dict(kind='transpose', model=m, nl='tanh', w=None, N=3, d=2, infl=1, seed=i); i += 1
    for m in ('updown', 'universal'):
        yield dict(kind='rnn', model=m, nl='relu', w=2.0, N=3, d=2, infl=2, seed=i); i += 1
    n = ncases(tier, 20, 200)
    for j in range(n):
        m = rng.choice(list(CAT))
        ana = rng.random() < .5 and CAT[m][3]
        yield dict(model=m, nl=rng.choice(['relu', 'tanh', 'softmax', 'sigmoid']), w=rweight(rng, [None, .5]), N=rsize(rng, 1, 4), d=rng.choice([2, 4]), infl=rsize(rng, 1, 3, 12),
                   ana=ana, nb=1 if ana else rng.randint(1, 2), n=rsize(rng, 1, 5), seed=100 + j)


def halves(d, dim, nb):
    if nb == 1:
        return SD({'blk': d})
    out = SD({'x1': SD(), 'x0': SD()})
    for k in d:
        n = d[k].shape[dim]
        out['x0'][k] = d[k].narrow(dim, 0, n // 2)
        out['x1'][k] = d[k].narrow(dim, n // 2, n - n // 2)
    return out


def check_case(case):
    torch.set_default_dtype(torch.float64)
    if case.get('kind') == 'transpose':
        return transpose(case)
    if case.get('kind') == 'rnn':
        return rnn(case)
    m = make(case, use_analytic_solution=case['ana'])
    dim = m.concatenation_dim
    nb = case['nb']
    s, c, x = state(case, grad=False), state(case, pre='p_', grad=False), state(case, n=case['n'], grad=False)
    v, plan = m.assemble_tensor(halves(s, dim, nb), halves(c, dim, nb), halves(x, dim, nb))
    m.set_auto_assembly_plans(plan)
    keep = v.clone()
    t = torch.tensor(0.25)
    f = m(t, v)
    ensure(tuple(f.shape) == tuple(v.shape), 'vector field has shape %s, state vector %s', tuple(f.shape), tuple(v.shape))
    ensure(torch.equal(v, keep), 'the state vector was modified')
    ds, dc, dx = m.disassemble_tensor(f)
    # element for element: derivative of block entry sits where the block entry sits
    sref = SD({k: a.clone().requires_grad_(True) for k, a in s.items()}); cref = SD({k: a.clone().requires_grad_(True) for k, a in c.items()})
    want_c, po, want_s, _ = ref_costate(m, t, sref, cref)
    want_x = m.rhs_advect_state(t, x, po)
    for got, want, pre_got, pre_want in ((ds, want_s, '', 'dot_'), (dc, want_c, 'p_', 'dot_p_'), (dx, want_x, '', 'dot_')):
        for k in s:
            g = torch.cat([got[b][pre_got + k] for b in got], dim) if nb > 1 else got['blk'][pre_got + k]
            t_equal(g.detach(), want[pre_want + k].detach(), 'derivative in the slot of %s%s' % (pre_got, k), 1e-6)
    # data starting exactly at the particles follow the particles
    v2, plan2 = m.assemble_tensor(halves(s, dim, nb), halves(c, dim, nb), halves(s, dim, nb))
    m.set_auto_assembly_plans(plan2)
    a, _, b = m.disassemble_tensor(m(t, v2))
    dd_equal(b, a, 'data equal to the particles moves like the particles', 1e-8)
    # adding data points never changes the motion of the others (batch normalising model excepted: per sample normalisation)
    x2 = SD({k: torch.cat([x[k], torch.randn_like(x[k])], 0) for k in x})
    v3, plan3 = m.assemble_tensor(halves(s, dim, nb), halves(c, dim, nb), halves(x2, dim, nb))
    m.set_auto_assembly_plans(plan3)
    d3 = m.disassemble_tensor(m(t, v3))
    dd_equal(d3[0], ds, 'particles unaffected by data', 1e-8)
    dd_equal(d3[1], dc, 'costates unaffected by data', 1e-8)
    for bname in dx:
        for k in dx[bname]:
            t_equal(d3[2][bname][k][:case['n']], dx[bname][k], 'data point unaffected by other data points', 1e-8)
    # no history: same input, same answer
    m.set_auto_assembly_plans(plan)
    t_equal(m(t, v), f, 'second evaluation at the same point', 1e-10)
    # input that requires gradient: gradient flows to the input
    vg = v.clone().requires_grad_(True)
    fg = m(t, vg)
    t_equal(fg.detach(), f.detach(), 'evaluation with gradient tracking', 1e-10)
    gr, = torch.autograd.grad(fg.sum(), vg)
    ensure(tuple(gr.shape) == tuple(v.shape) and torch.isfinite(gr).all(), 'no gradient with respect to the state vector')
    with torch.no_grad():
        t_equal(m(t, v).detach(), f.detach(), 'evaluation under no_grad', 1e-10)


def transpose(case):
    a = make(case)
    b = make(case, transpose_state_when_forward=True)
    s, c, x = state(case, grad=False), state(case, pre='p_', grad=False), state(case, n=5, grad=False)
    tr = lambda d: SD({'k': SD({k: d[k].transpose(1, 2).contiguous() for k in d})})
    va, pa = a.assemble_tensor(SD({'k': s}), SD({'k': c}), SD({'k': x}))
    vb, pb = b.assemble_tensor(tr(s), tr(c), tr(x))
    a.set_auto_assembly_plans(pa); b.set_auto_assembly_plans(pb)
    t = torch.tensor(0.3)
    ra, rb = a.disassemble_tensor(a(t, va)), b.disassemble_tensor(b(t, vb))
    for u, w in zip(ra, rb):
        for blk in u:
            for k in u[blk]:
                t_equal(w[blk][k].transpose(1, 2), u[blk][k], 'transposed evaluation of ' + k, 1e-8)


def rnn(case):
    """recurrent mode: the parameters computed first are kept until the integrand is reset"""
    for ana in (False, True):
        m = make(case, use_analytic_solution=ana, use_rnn_mode=True)
        r = make(case, use_analytic_solution=ana)
        def vec(mm):
            s, c, x = state(case, grad=False), state(case, pre='p_', grad=False), state(case, n=5, grad=False)
            v, p = mm.assemble_tensor(SD({'k': s}), SD({'k': c}), SD({'k': x}))
            mm.set_auto_assembly_plans(p)
            return v, s, c, x
        m.reset()
        v1, s1, c1, x1 = vec(m)
        m(torch.tensor(0.0), v1)
        s1 = SD({k: a.requires_grad_(True) for k, a in s1.items()}); c1 = SD({k: a.requires_grad_(True) for k, a in c1.items()})
        po, ref = ref_parameters(m, 0., s1, c1)
        po = install(po, ref)
        for t in (0.5, 0.0, 1.0, 1e-4, 0.0):
            v2, s2, c2, x2 = vec(m)
            got = m.disassemble_tensor(m(torch.tensor(t), v2))
            for i, y in ((0, s2), (2, x2)):
                d_equal(SD({'dot_' + k: a for k, a in got[i]['k'].items()}), m.rhs_advect_state(torch.tensor(t), y, po), 'recurrent mode keeps the first parameters (t=%r)' % t, 1e-6)
        m.reset()
        v3, s3, c3, x3 = vec(m)
        got = m.disassemble_tensor(m(torch.tensor(0.0), v3))
        s3 = SD({k: a.requires_grad_(True) for k, a in s3.items()}); c3 = SD({k: a.requires_grad_(True) for k, a in c3.items()})
        po, ref = ref_parameters(m, 0., s3, c3)
        po = install(po, ref)
        d_equal(SD({'dot_' + k: a for k, a in got[2]['k'].items()}), m.rhs_advect_state(torch.tensor(0.0), x3, po), 'reset discards the kept parameters', 1e-6)
