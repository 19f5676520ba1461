"""C12: enlarged handed-over states keep their values in the centre.

Specification of the enlarged tensor: dimension by dimension the surplus is put half (rounded down) in front and the rest behind, the new
entries being read off the enlargement parameter one after the other: every parameter is used for exactly one new entry and vice versa."""
from pyvc.prove import *
from proofs.common import *
from proofs.blk import *

GROW = '''
import torch
def grow(x, pars, sizes):
    off = 0
    for dim in range(len(sizes)):
        n = x.size(dim)
        if sizes[dim] > n:
            a = (sizes[dim] - n) // 2
            b = sizes[dim] - n - a
            s = list(x.size())
            s[dim] = a
            na = 1
            for q in s:
                na = na * q
            pa = pars[off:off + na].reshape(s)
            off = off + na
            s = list(x.size())
            s[dim] = b
            nb = 1
            for q in s:
                nb = nb * q
            pb = pars[off:off + nb].reshape(s)
            off = off + nb
            x = torch.cat((pa, x, pb), dim)
    return x
'''


class En(object):
    """block with own particles [N, d, h, w] and handed-over blocks that are smaller in the given dimensions"""

    def __init__(self, V, name, grow, blocks=('a',), **kw):
        self.V = V
        self.k = k = Blk(V, name, blockname='Z', **kw)
        self.s, self.c = k.own()
        self.g = V.define(GROW)
        full = [k.D.N, None, k.D.hw[0], k.D.hw[1]]
        self.h = []
        for b in blocks:
            sz = []
            for i in (0, 2, 3):
                if i in grow:
                    n = V.dim('%s_n%d' % (b, i))
                    V.assume(n < full[i])
                else:
                    n = full[i]
                sz.append(n)
            D2 = Dims(V, 'conv')
            D2.N, D2.d, D2.hw, D2.f = sz[0], V.dim(b + '_d'), (sz[1], sz[2]), k.D.f
            st = state(V, name, D2, tag='hs_' + b)
            co = state(V, name, D2, pre='p_', tag='hc_' + b)
            D3 = Dims(V, 'conv')
            D3.d, D3.hw, D3.f = D2.d, k.D.hw, k.D.f
            self.h.append((b, st, co, state(V, name, D3, n=k.S, tag='hd_' + b)))
        self.dd = [V.sdict([(x[0], x[j]) for x in self.h]) for j in (1, 2, 3)]

    def run(self):
        V = self.V
        return V.call(self.k.b, pass_through_state_dict_of_dicts=self.dd[0], pass_through_costate_dict_of_dicts=self.dd[1], data_dict_of_dicts=self.dd[2])

    def pars(self):
        return dict((nm, V_) for nm, V_ in named(self.V, self.k.b))

    def size(self, t):
        D = self.k.D
        return [D.N, t.term.lead[1], D.hw[0], D.hw[1]]

    def name(self, b, key):
        return 'pt_enlarge_' + key if len(self.h) == 1 else 'pt_enlarge_%s_%s' % (b, key)

    def groups(self, par):
        """what is integrated, given the enlargement parameters"""
        V, k = self.V, self.k
        out = [list(self.s), list(self.c), []]
        for b, st, co, da in self.h:
            for j, d in ((0, st), (1, co)):
                for key, t in V.entries(d):
                    p = par(b, key)
                    out[j].append((b, key, t if p is None else V.ex.force(V.call(self.g['grow'], t, p, PList(self.size(t))))))
            out[2] += [(b, key, t) for key, t in V.entries(da)]
        out[2] += [('Z', n, PTensor(tfull(ZERO, z))) for n, z in shapes(k.name, k.D, k.S).items()]
        return out


def named(V, b):
    r = []
    for x in V.ex.iterate_concrete(V.m(b, 'named_parameters')):
        x = V.ex.force(x)
        r.append((x[0], V.ex.force(x[1])))
    return r


def first(V, e):
    """first pass: creates the parameters; returns the vector it starts from"""
    V.set(e.k.it, 'y', None)
    e.run()
    calls = V.attr(e.k.it, 'calls')
    V.eqint(calls.length(), 1, 'one integration')
    return V.ex.force(V.ex.force(V.item(calls, 0))[1])


def added(V, got, want):
    V.eqint(len(got), len(want), 'one new parameter per handed-over entry, if there is something to enlarge')
    if sorted(got) != sorted(want):
        raise Unsupported('other names of the enlargement parameters: %s' % (got,))


def vol(sizes):
    r = 1
    for s in sizes:
        r = zi(r) * zi(s)
    return r


def mk(name, grow, blocks=('a',)):
    nm = '%s, surplus in dimensions %s, %d handed-over block(s)' % (name, list(grow), len(blocks))

    @obligation('values in the centre, new parameters around: ' + nm, B + '._enlarge_tensor', scope='any sizes and contents; bounded: %d handed-over block(s)' % len(blocks))
    def centre(V):
        e = En(V, name, grow, blocks)
        own = named(V, e.k.b)
        x0 = first(V, e)
        new = named(V, e.k.b)
        old = [n for n, p in own]
        keys = [(x[0], key, t) for x in e.h for d in (x[1], x[2]) for key, t in V.entries(d)]
        want = sorted([e.name(b, key) for b, key, t in keys]) if grow else []
        added(V, [n for n, p in new if n not in old], want)
        par = dict(new)
        for b, key, t in keys:
            if grow:
                p = par[e.name(b, key)]
                V.shape(p, [simp(vol(e.size(t)) - vol(t.term.lead))], 'as many new parameters as new values: %s' % key)
                V.true(bool(V.ex.force(V.attr(p, 'requires_grad'))), 'to be optimised: ' + key)
        get = lambda b, key: par[e.name(b, key)] if grow else None
        g = [sorted(y, key=lambda x: (x[0], x[1])) for y in e.groups(get)]
        V.tensor_eq(x0, V.ex.force(V.call(e.k.c['join'], PList([x[-1] for y in g for x in y]))), 'first pass starts at the enlarged states')
        for n, p in new:
            if n not in old:
                p.term = V.tensor('trained_' + n, p.term.lead, grad=True).term
        e.k.expect(e.groups(get), e.run, 'later pass with other parameter values')
        V.true([n for n, p in named(V, e.k.b)] == [n for n, p in new], 'no further parameters')


for _g in ((), (0,), (2,), (3,), (2, 3), (0, 2, 3)):
    mk('conv', _g)
mk('updownconv', (2, 3))
mk('convbatch', (2,))
mk('conv', (2, 3), ('a', 'b'))


for _g in ((2, 3), ()):
    @obligation('states kept at zero: zero border that is not optimised, surplus in dimensions %s' % (list(_g),), B + '.register_pass_through_state_and_costate_enlargement_parameters', scope='any sizes and contents; bounded: one handed-over block')
    def zero(V, grow=_g):
        e = En(V, 'conv', grow, keep_initial_state_parameters_at_zero=True)
        own = named(V, e.k.b)
        V.true(sorted([n for n, p in own]) == sorted(x[1] for x in e.c), 'only costates are optimised')
        e.s = [(b, k, PTensor(tfull(ZERO, t.term.lead))) for b, k, t in e.s]
        for (b, k, t), (k2, v) in zip(e.s, V.entries(V.attr(e.k.b, '_state_parameter_dict'))):
            v.term = t.term
        x0 = first(V, e)
        new = named(V, e.k.b)
        old = [n for n, p in own]
        keys = [key for x in e.h for key, t in V.entries(x[2])]
        added(V, [n for n, p in new if n not in old], [e.name('a', key) for key in keys] if grow else [])
        par = dict(new)

        def get(b, key):
            if not grow:
                return None
            if key in keys:
                return par[e.name(b, key)]
            t = [t for n, t in V.entries(e.h[0][1]) if n == key][0]
            return PTensor(tfull(ZERO, [simp(vol(e.size(t)) - vol(t.term.lead))]))
        g = [sorted(y, key=lambda x: (x[0], x[1])) for y in e.groups(get)]
        V.tensor_eq(x0, V.ex.force(V.call(e.k.c['join'], PList([x[-1] for y in g for x in y]))), 'starts at the states with a border of zeros')
        e.k.expect(e.groups(get), e.run, 'later pass')


for _d in (0, 2, 3):
    @obligation('larger handed-over states are refused: dimension %d' % _d, B + '._create_generic_dict_of_dicts_enlargement_parameters', scope='any sizes and contents; bounded: one handed-over block')
    def larger(V, d=_d):
        e = En(V, 'conv', (d,))
        k = e.k
        full = {0: k.D.N, 2: k.D.hw[0], 3: k.D.hw[1]}[d]
        n = V.dim('larger')
        V.assume(n > full)
        for dd in e.dd[:2]:
            for b, x in V.entries(dd):
                for key, t in V.entries(x):
                    l = list(t.term.lead)
                    l[d] = n
                    t.term = V.tensor('big_' + key, l, grad=True).term
        V.raises(lambda: e.run(), 'states larger than those of the block')
        V.eqint(V.attr(k.it, 'calls').length(), 0, 'nothing is integrated')


@obligation('switched off: handed-over states are used as they are', B + '.forward', scope='any sizes and contents; bounded: one handed-over block')
def off(V):
    e = En(V, 'conv', (), enlarge_pass_through_states_and_costates=False)
    n = named(V, e.k.b)
    e.k.expect(e.groups(lambda b, key: None), e.run, 'pass')
    V.true([a for a, p in named(V, e.k.b)] == [a for a, p in n], 'no new parameters')
