"""C05: get_nonlinearity(name) returns (f, f')."""
from pyvc.prove import *

M = 'activation_functions_and_derivatives:get_nonlinearity'
SPEC = {
    'identity': lambda x: x,
    'relu': lambda x: fn('relu', x),
    'tanh': lambda x: fn('tanh', x),
    'sigmoid': lambda x: fn('sigmoid', x),
    'softmax': lambda x: mul(x, fn('sigmoid', x)),       # x*sigmoid(x)
}
DSPEC = {
    'identity': lambda x: ONE,
    'relu': lambda x: Expr('fn', 'step', x),
    'tanh': lambda x: sub(ONE, powi(fn('tanh', x), 2)),
    'sigmoid': lambda x: mul(fn('sigmoid', x), sub(ONE, fn('sigmoid', x))),
    'softmax': lambda x: add(fn('sigmoid', x), mul(x, fn('sigmoid', x), sub(ONE, fn('sigmoid', x)))),
}


def mkcase(arg, name):
    @obligation('get_nonlinearity[%s]' % (arg,), 'get_nonlinearity', scope='tensors of every shape, all real values')
    def _(V):
        S = OShape(z3.Const('S', ShapeSort))
        V.assume(S.numel() >= 0)
        x = V.tensor('x', [], S)
        k0 = x.term.key()
        r = V.call(M, arg)
        V.true(isinstance(r, tuple) and len(r) == 2, 'returns a pair')
        f = V.call(r[0], x)
        V.tensor_eq(f, ([], lambda i: SPEC[name](app('x', (), [i])), S), 'value is %s' % name)
        d = V.call(r[1], x)
        # multiplied by x: at x=0 the derivative of relu is not defined
        X = lambda i: app('x', (), [i])
        if name == 'relu':
            V.tensor_eq(T.mk(T.ew(V.ex, 'mul', [d.term, x.term])), ([], lambda i: mul(X(i), DSPEC[name](X(i))), S), 'second function is the derivative of the first')
        else:
            V.tensor_eq(d, ([], lambda i: DSPEC[name](X(i)), S), 'second function is the derivative of the first')
        # derivative obtained by differentiating what the first function computes
        if name != 'relu':
            V.tensor_eq(d, ([], lambda i: sigma.ediff(sigma.elem(f.term, [i]), 'x', (i,)), S), 'second function is the derivative of what the first computes')
        V.true(x.term.key() == k0, 'argument unmodified')
        # a further parameter that both functions have (the scale of softmax) keeps them a pair
        ps = [[a.arg for a in g.node.args.args] if isinstance(g, interp.Func) else [] for g in r]
        for q in [q for q in ps[0][1:] if q in ps[1][1:]]:
            s = V.real('scale')
            f, d = [V.call(g, x, **{q: s}) for g in r]
            V.tensor_eq(d, ([], lambda i: sigma.ediff(sigma.elem(f.term, [i]), 'x', (i,)), S), 'derivative for every ' + q)


for n in SPEC:
    mkcase(n, n)
mkcase(None, 'identity')
mkcase('ReLU', 'relu')
mkcase('TANH', 'tanh')


@obligation('get_nonlinearity[unknown]', 'get_nonlinearity', scope='every string')
def _(V):
    s = z3.Const('s', KeySort)
    low = z3.Function('lower', KeySort, KeySort)(s)
    for n in SPEC:
        V.assume(low != V.ex.ctx.kconst(n))
    V.raises(lambda: V.call(M, s), 'unknown name is refused', ['ValueError'])
