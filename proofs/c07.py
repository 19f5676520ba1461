"""C07: hand-written shooting equations = automatically derived ones, for all sizes, values and nonlinearities."""
from proofs.common import *


def mk(name, w, lead=0):
    @obligation('compute_gradients[%s,%s]: analytic = autodiff%s' % (name, 'weight' if w else 'no weight', ', data with %d more leading dimension%s' % (lead, 's' * (lead > 1)) if lead else ''), 'compute_gradients_analytic, analytic shooting equations of ' + CAT[name][0],
                scope='all N, in_features, inflation factor >= 1; particle_dimension 1; any differentiable nonlinearity; any non-zero weight')
    def _(V):
        stub_nl(V)
        D = Dims(V)
        n = V.dim('n')
        wt = None
        if w:
            wt = V.real('w')
            V.assume(wt != 0)
        a = make(V, name, D, wt, use_analytic_solution=True)
        b = make(V, name, D, wt, use_analytic_solution=False)
        s, c, x = state(V, name, D), state(V, name, D, pre='p_'), state(V, name, D, n=n, tag='x_')
        if lead:
            L = [V.dim('L%d' % i) for i in range(lead)]
            x = V.sdict([(k, V.tensor('x_' + k, L + list(sh), grad=True)) for k, sh in shapes(name, D, n).items()])
            for o in (a, b):
                V.m(o, 'set_data_concatenation_dim', 2 + lead)
        t = tval(V, V.real('t'))
        ra = V.m(a, 'compute_gradients', t, V.sdict([('k', s)]), V.sdict([('k', c)]), V.sdict([('k', x)]))
        rb = V.m(b, 'compute_gradients', t, V.sdict([('k', s)]), V.sdict([('k', c)]), V.sdict([('k', x)]))
        V.true(len(ra) == 4 and len(rb) == 4, 'four results')
        for u, v, nm in zip(ra[:3], rb[:3], ('state', 'costate', 'data')):
            eu, ev_ = V.entries(u), V.entries(v)
            V.true([k for k, _ in eu] == [k for k, _ in ev_] == ['k'], nm + ' blocks')
            for (k1, d1), (k2, d2) in zip(eu, ev_):
                e1, e2 = V.entries(d1), V.entries(d2)
                V.true([k for k, _ in e1] == [k for k, _ in e2], '%s entries' % nm)
                for (k1, t1), (k2, t2) in zip(e1, e2):
                    V.tensor_eq(t1, t2, '%s derivative %s' % (nm, k1))
        pa, pb = V.entries(ra[3]), V.entries(rb[3])
        V.true([k for k, _ in pa] == [k for k, _ in pb], 'parameter objects')
        for (o, la), (_, lb) in zip(pa, pb):
            ea, eb = V.entries(V.m(la, 'get_parameter_dict')), V.entries(V.m(lb, 'get_parameter_dict'))
            V.true([k for k, _ in ea] == [k for k, _ in eb], 'parameters of ' + o)
            for (k, t1), (_, t2) in zip(ea, eb):
                V.eqint(t1.term.numel(), t2.term.numel(), 'size of parameter %s.%s' % (o, k))
                t1r = T.view(V.ex, t1, list(t2.term.lead), None)
                V.tensor_eq(t1r, t2, 'parameter %s.%s' % (o, k))
        na, nb = V.m(a, 'get_current_norm_penalty'), V.m(b, 'get_current_norm_penalty')
        na, nb = V.ex.force(na), V.ex.force(nb)
        V.true((na is None) == (nb is None), 'norm penalty set by both or by none')
        if na is not None:
            V.tensor_eq(na, nb, 'norm penalty')


for nm in ANALYTIC:
    for w in (False, True):
        mk(nm, w)
    mk(nm, True, 1)
    mk(nm, False, 2)
