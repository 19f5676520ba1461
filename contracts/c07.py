"""C07  hand written shooting equations agree with the automatically derived ones."""
import torch
from lib.rt import *
from lib.models import *


def cases(tier, rng):
    i = 0
    for m in ANALYTIC:
        for nl in ('identity', 'relu', 'tanh', 'sigmoid', 'softmax'):
            for w in (None, 2.5):
                yield dict(model=m, nl=nl, w=w, N=3, d=2, infl=3, seed=i); i += 1
        for ex in (1, 2):
            yield dict(model=m, nl='tanh', w=1.5, N=3, d=2, infl=3, lead=ex, seed=i); i += 1
        for N, d, f in ((1, 1, 1), (1, 3, 2), (4, 1, 3), (6, 4, 2)):
            yield dict(model=m, nl='tanh', w=0.7, N=N, d=d, infl=f, seed=i); i += 1
    n = ncases(tier, 60, 500)
    for j in range(n):
        yield dict(model=rng.choice(ANALYTIC), nl=rng.choice(['identity', 'relu', 'tanh', 'sigmoid', 'softmax']), w=rweight(rng, [None, .1, 1., 7.]),
                   N=rsize(rng, 1, 6), d=rsize(rng, 1, 4), infl=rsize(rng, 1, 4), scale=rng.choice([.1, 1., 3.]), seed=1000 + j)


def check_case(case):
    torch.set_default_dtype(torch.float64)
    sc = case.get('scale', 1.0)
    s, c, x = state(case, scale=sc), state(case, pre='p_', scale=sc), state(case, n=case['N'] + 2, scale=sc)
    a = make(case, use_analytic_solution=True)
    b = make(case, use_analytic_solution=False)
    if case.get('lead'):
        ex = case['lead']
        x = SD({k: torch.randn(*[2, 3][:ex], *v.shape, requires_grad=True) for k, v in x.items()})
        a.set_data_concatenation_dim(2 + ex); b.set_data_concatenation_dim(2 + ex)
    for t in (torch.tensor(0.0), torch.tensor(0.4)):
        ra = a.compute_gradients(t, SD({'k': s}), SD({'k': c}), SD({'k': x}))
        rb = b.compute_gradients(t, SD({'k': s}), SD({'k': c}), SD({'k': x}))
        for u, v, nm in zip(ra[:3], rb[:3], ('state', 'costate', 'data')):
            dd_equal(u, v, 'analytic versus autodiff %s derivative' % nm, 1e-6)
        pa, pb = ra[3], rb[3]
        ensure(list(pa.keys()) == list(pb.keys()), 'parameter objects differ')
        for o in pb:
            da, db = pa[o].get_parameter_dict(), pb[o].get_parameter_dict()
            ensure(list(da.keys()) == list(db.keys()), 'parameters of %s differ', o)
            for k in db:
                ensure(da[k].numel() == db[k].numel(), 'analytic parameter %s.%s has %s elements', o, k, tuple(da[k].shape))
                t_equal(da[k].detach().reshape(db[k].shape), db[k].detach(), 'analytic versus autodiff parameter %s.%s' % (o, k), 1e-6)
        na, nb = a.get_norm_penalty(), b.get_norm_penalty()
        t_equal(na.detach(), nb.detach(), 'norm penalty', 1e-6)
    # whole vector field
    v, plan = a.assemble_tensor(SD({'k': s}), SD({'k': c}), SD({'k': x}))
    a.set_auto_assembly_plans(plan); b.set_auto_assembly_plans(plan)
    t_equal(a(torch.tensor(0.1), v.detach()), b(torch.tensor(0.1), v.detach()), 'vector field', 1e-6)
