"""C13: layers with external parameters compute what the standard layers compute with these parameters.

The standard layers are torch's: their function is F.linear (interpreted as sums), F.conv2d (interpreted as sums for one group,
uninterpreted otherwise), F.pad and F.group_norm (uninterpreted): what is proved is that the layer applies this function to exactly its
input, the supplied parameters and the options it was created with."""
import itertools
from proofs.common import *

O = 'overwrite_classes:'


def put(V, l, name, t):
    ext.dict_set(V.ex, V.ex.force(V.m(l, 'get_parameter_dict')), name, t)


def books(V, l, names, w, ndim):
    """bookkeeping contract: parameters, weights, no parameters of its own"""
    pd = dict(V.entries(V.m(l, 'get_parameter_dict')))
    V.true(sorted(pd) == sorted(names), 'parameters of the layer')
    for n, v in pd.items():
        V.true(isinstance(v, PTensor) and len(v.term.lead) == ndim[n] and not v.flags.get('param'), 'parameter %s is a variable' % n)
        V.true(v.flags.get('requires_grad') is True, 'gradients reach parameter %s' % n)
    V.true(len(ext.named_params(V.ex, l)) == 0, 'the layer owns no parameters')
    wd = dict(V.entries(V.m(l, 'get_parameter_weight_dict')))
    for n in names:
        V.is_(wd[n], w, 'weight of %s' % n)
    V.raises(lambda: V.m(l, 'add_weight', 'nosuch', 1), 'weight for an unknown parameter', ['ValueError'])
    x = V.real('individual')
    for n in names:
        V.m(l, 'add_weight', n, x)
        for j, (a, b) in enumerate(V.entries(V.m(l, 'get_parameter_weight_dict'))):
            V.is_(b, x if a == n else w, 'individual weight')
        V.m(l, 'add_weight', n, w)


for damp, bias, w in itertools.product((False, True), (True, False), (False, True)):
    @obligation('%s[%s,%s]' % ('SNN_LinearDampening' if damp else 'SNN_Linear', 'bias' if bias else 'no bias', 'weighted' if w else 'unweighted'), 'SNN_Linear, RemoveParameters', scope='any numbers of features, inputs of 1-3 dimensions of any size, any parameters')
    def _(V, damp=damp, bias=bias, w=w):
        i, o = V.dim('i'), V.dim('o')
        wt = V.real('w') if w else None
        l = V.call(O + ('SNN_LinearDampening' if damp else 'SNN_Linear'), i, o, bias=bias, weight=wt)
        books(V, l, ['weight'] + ['bias'] * bias + ['dampening'] * damp, wt, dict(weight=2, bias=1, dampening=1))
        if damp:
            V.tensor_eq(V.item(V.m(l, 'get_parameter_dict'), 'dampening'), ([1], lambda j: num(Fraction(1, 10))), 'dampening starts at 0.1')
        W, B, D = V.tensor('W', [o, i], grad=True), V.tensor('B', [o], grad=True), V.tensor('D', [1], grad=True)
        put(V, l, 'weight', W)
        if bias:
            put(V, l, 'bias', B)
        if damp:
            put(V, l, 'dampening', D)
        for r in (1, 2, 3):
            lead = [V.dim('n%d' % k) for k in range(r - 1)]
            x = V.tensor('x%d' % r, lead + [i])
            dx = V.tensor('dx%d' % r, lead + [o])
            y = V.call(l, x, dx) if damp else V.call(l, x)

            ref = T.linear(V.ex, x, W, B if bias else None).term
            if damp:
                ref = T.ew(V.ex, 'sub', [ref, T.ew(V.ex, 'mul', [D.term, dx.term])])
            V.tensor_eq(y, ref, 'output')


def conv(st, pad, dil, g, bias, pm, ks):
    nm = 'SNN_Conv2d[kernel %s,stride %s,padding %s,dilation %s,groups %s,%s,%s]' % (ks, st, pad, dil, g, 'bias' if bias else 'no bias', pm)

    @obligation(nm, 'SNN_Conv2d, RemoveParameters', scope='any numbers of channels and input sizes, any parameters; s, p, d stand for any value')
    def _(V):
        lift = lambda v, n, lo: tuple(V.int('%s%d' % (n, k), lo) for k in range(2)) if v == n + n else (V.int(n, lo) if v == n else v)
        a = dict(kernel_size=lift(ks, 'k', 1), stride=lift(st, 's', 1), padding=lift(pad, 'p', 0), dilation=lift(dil, 'd', 1), groups=g, bias=bias, padding_mode=pm)
        ci, co = V.dim('ci'), V.dim('co')
        wt = V.real('w')
        l = V.call(O + 'SNN_Conv2d', simp(zi(ci) * g), simp(zi(co) * g), weight=wt, **a)
        names = ['weight'] + ['bias'] * bias
        books(V, l, names, wt, dict(weight=4, bias=1))
        pr = lambda v: v if isinstance(v, tuple) else (v, v)
        k, s, p, d = [pr(a[n]) for n in ('kernel_size', 'stride', 'padding', 'dilation')]
        W, B = V.tensor('W', [simp(zi(co) * g), ci] + list(k), grad=True), V.tensor('B', [simp(zi(co) * g)], grad=True)
        put(V, l, 'weight', W)
        if bias:
            put(V, l, 'bias', B)
        x = V.tensor('x', [V.dim('n'), simp(zi(ci) * g), V.dim('h'), V.dim('wd')])
        for j in range(2):
            V.assume(x.term.lead[2 + j] + 2 * zi(p[j]) - zi(d[j]) * (zi(k[j]) - 1) - 1 >= 0)
        y = V.call(l, x)
        if pm == 'zeros':
            ref = T.h_conv2d(V.ex, [x, W, B if bias else None, s, p, d, g], {})
        else:
            z = T.h_pad(V.ex, [x, (p[1], p[1], p[0], p[0]), pm], {})
            ref = T.h_conv2d(V.ex, [z, W, B if bias else None, s, (0, 0), d, g], {})
        V.tensor_eq(y, ref, 'output')


for bias in (True, False):
    for pm in ('zeros', 'circular', 'reflect', 'replicate'):
        conv('s', 'pp', 'd', 1, bias, pm, 3)
        conv('ss', 'p', 'dd', 2, bias, pm, (3, 2))
    conv(1, 1, 1, 1, bias, 'zeros', 3)
    conv('s', 'p', 1, 3, bias, 'zeros', 1)
    conv(2, 'pp', 1, 1, bias, 'circular', (2, 3))

for aff, w in itertools.product((True, False), (True, False)):
    @obligation('SNN_GroupNorm[%s,%s]' % ('affine' if aff else 'not affine', 'weighted' if w else 'unweighted'), 'SNN_GroupNorm, RemoveParameters', scope='any numbers of groups and channels, any eps, inputs of 2-4 dimensions, any parameters')
    def _(V, aff=aff, w=w):
        g, m = V.dim('g'), V.dim('m')
        c = simp(g * m)
        wt, eps = V.real('w') if w else None, V.real('eps')
        l = V.call(O + 'SNN_GroupNorm', g, c, affine=aff, eps=eps, weight=wt)
        books(V, l, ['weight', 'bias'] * aff, wt, dict(weight=1, bias=1))
        W, B = V.tensor('W', [c], grad=True), V.tensor('B', [c], grad=True)
        if aff:
            put(V, l, 'weight', W)
            put(V, l, 'bias', B)
        for r in (2, 3, 4):
            x = V.tensor('x%d' % r, [V.dim('n'), c] + [V.dim('e%d' % j) for j in range(r - 2)])
            y = V.call(l, x)
            V.tensor_eq(y, T.h_group_norm(V.ex, [x, g, W if aff else None, B if aff else None, eps], {}), 'output')


@obligation('moving a layer moves every parameter', 'RemoveParameters.to, _apply', scope='every layer, any shapes')
def _(V):
    for nm, a in (('SNN_Linear', (V.dim('i'), V.dim('o'))), ('SNN_LinearDampening', (V.dim('i'), V.dim('i'))), ('SNN_Conv2d', (V.dim('i'), V.dim('o'), 3)), ('SNN_GroupNorm', (V.dim('g'), simp(V.dim('g') * 2)))):
        l = V.call(O + nm, *a)
        before = V.entries(V.m(l, 'get_parameter_dict'))
        f = V.define('def f(t):\n    return 2*t\n')['f']
        r = V.m(l, '_apply', f)
        V.is_(r, l, 'the layer itself is returned')
        after = dict(V.entries(V.m(l, 'get_parameter_dict')))
        V.true(sorted(after) == sorted(k for k, v in before), 'same parameters')
        for k, v in before:
            V.tensor_eq(after[k], T.ew(V.ex, 'mul', [v.term, num(2)]), 'parameter %s' % k)
