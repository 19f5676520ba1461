"""C02: joining blocks along a dimension and splitting are inverse."""
from proofs.dod import *

P = 'state_costate_and_data_dictionary_utils:'
CAT_ = '_concatenate_dict_of_dicts: contract (dim %d)'


class J(D2):
    """blocks with the same entry names whose shapes agree except along dimension c"""

    def __init__(self, V, name, c):
        self.c = c
        n = z3.Function(name + '_n', II, II, II)
        PS.nonneg_fns.add(n.name())
        V.ex.ctx.axioms[n.name()] = lambda b, e: n(b, e) >= 1
        ds = []
        for k in range(c):
            f = z3.Function('%s_d%d' % (name, k), II, II)
            PS.nonneg_fns.add(f.name())
            V.ex.ctx.axioms[f.name()] = lambda e, f=f: f(e) >= 1
            ds.append(f)
        self.n, self.ds = n, ds
        self.T = z3.Function(name + '_T', II, SHAPE)
        D2.__init__(self, V, name, same_keys=True)

    def ten(self, b, e):
        b, e = zi(b), zi(e)
        return tvar(self.name, (b, e), [f(e) for f in self.ds] + [self.n(b, e)], OShape(self.T(e)))

    def off(self, b, e):
        x = z3.Int(self.name + '!jb')
        return simp(PS.get(x, self.n(x, zi(e)))(b))


def mk(c):
    SC = 'any number of blocks and entries, tensors of any rank and shape that agree except along dimension %d' % c

    @obligation(CAT_ % c, '_concatenate_dict_of_dicts', scope=SC)
    def _(V):
        d = J(V, 'd', c)
        r = V.ex.force(V.call(P + '_concatenate_dict_of_dicts', d.obj, c))
        V.true(isinstance(r, PDict) and r.kind == 'SortedDict', 'sorted dictionary')
        V.eqint(ext.dict_len(V.ex, r), d.E(0), 'as many entries as the first block')
        ext.iterate(V.ex, r)
        b, e = d.generic()
        t = V.item(r, d.ek(b, e))
        w = d.ten(b, e)
        V.shape(t, [f(e) for f in d.ds] + [d.off(d.B, e)], 'shape', w.tail)
        i = V.idx(w)
        j = list(i)
        j[c] = simp(zi(d.off(b, e)) + zi(i[c]))
        V.eq(sigma.elem(V.ex.force(t).term, j), sigma.elem(w, i), 'the blocks follow each other in order')

    @obligation('join, split = identity (dim %d)' % c, '_concatenate_dict_of_dicts, _deconcatenate_based_on_generic_dict_of_dicts', scope=SC)
    def _(V):
        d = J(V, 'd', c)
        r = V.call(P + '_concatenate_dict_of_dicts', d.obj, c)
        s = V.call(P + '_deconcatenate_based_on_generic_dict_of_dicts', r, d.obj, c)
        check_same(V, s, d, 'split')


for c in range(5):
    mk(c)


@obligation('splitting along a dimension above 4 is refused', '_deconcatenate_based_on_generic_dict_of_dicts', scope='any dimension above 4, any number of blocks and entries')
def _(V):
    d = J(V, 'd', 2)
    g = D1(V, 'g', 1)
    c = V.int('c', 5)
    V.raises(lambda: V.call(P + '_deconcatenate_based_on_generic_dict_of_dicts', g.obj, d.obj, c), 'dimension above 4', ['ValueError'])


@obligation('an entry that the first block lacks is refused', '_concatenate_dict_of_dicts', scope='bounded: two blocks with one and two entries; any shapes')
def _(V):
    for first, second in ((['x'], ['x', 'y']), (['x'], ['y']), (['y'], ['x', 'y']), ([], ['x'])):
        n = [V.dim('n%d' % k) for k in range(3)]
        mk_ = lambda tag, ks: V.sdict([(k, V.tensor(tag + k, n)) for k in ks])
        d = V.sdict([('a', mk_('a', first)), ('b', mk_('b', second))])
        V.raises(lambda: V.call(P + '_concatenate_dict_of_dicts', d, 2), 'entries %s then %s' % (first, second), ['ValueError'])


@obligation('shapes that do not fit are refused', '_concatenate_dict_of_dicts', scope='bounded: two blocks of rank 3; any different sizes')
def _(V):
    for c in range(3):
        for other in range(3):
            if other == c:
                continue
            n = [V.dim('n%d' % k) for k in range(3)]
            m = list(n)
            m[c] = V.dim('mc')
            x = z3.Int('mo%d%d' % (c, other))
            V.assume(x >= 1, x != n[other])
            m[other] = x
            d = V.sdict([('a', V.sdict([('x', V.tensor('ax', n))])), ('b', V.sdict([('x', V.tensor('bx', m))]))])
            V.raises(lambda: V.call(P + '_concatenate_dict_of_dicts', d, c), 'dimension %d differs, joined along %d' % (other, c), ['ValueError'])
