"""C20: complexity measures."""
import itertools
from proofs.common import *

KEYS = ('t', 'sum_sqr_frobenius_norm', 'sum_sqr_nuclear_norm', 'sum_sqr_spectral_norm')
OUT = ('log2_frobenius', 'log2_nuclear', 'log2_spectral')


def measures(V, n, mk):
    """mk(name) -> the recorded list; app(name, i) its i-th entry"""
    at = lambda nm, i: app(nm, (), [zi(i)])
    recs = [(k, mk(k)) for k in KEYS]
    data = V.sdict(recs, 'dict')
    before = [(k, v, v.term if isinstance(v, PTensor) else [(s.lo, s.hi, s.body) if isinstance(s, Seg) else s for s in v.segs]) for k, v in recs]
    r = V.call('validation_measures:compute_complexity_measures', data)
    V.true(sorted(k for k, v in V.entries(r)) == sorted(OUT), 'three measures')
    for k, o in zip(KEYS[1:], OUT):
        i = z3.Int('sum!i')
        d = sub(at('t', i + 1), at('t', i))
        body = mul(d, Expr('fn', 'step', d), fn('log2', mul(num(Fraction(1, 2)), add(at(k, i), at(k, i + 1)))))
        g = V.item(r, o)
        V.true(not isinstance(g, PTensor) or not g.term.lead and g.term.tail is None, 'one number')
        V.eq(sigma.elem(g.term, []) if isinstance(g, PTensor) else num(g), esum(i, simp(zi(n) - 1), body), o)
    for k, v, b in before:
        V.is_(V.item(data, k), v, 'the record is the same object')
        V.true((v.term is b) if isinstance(v, PTensor) else b == [(s.lo, s.hi, s.body) if isinstance(s, Seg) else s for s in v.segs], 'records unchanged')



SC = 'any number of records >= 1, any times (also going backwards) and any norms'


@obligation('measures of recorded lists', 'compute_complexity_measures', scope=SC)
def _(V):
    n = V.dim('n')

    def mk(k):
        i = z3.Int('rec!' + k)
        return PList(segs=[Seg(0, n, i, app(k, (), [i]))])
    measures(V, n, mk)


@obligation('measures of recorded arrays', 'compute_complexity_measures', scope=SC)
def _(V):
    n = V.dim('n')
    measures(V, n, lambda k: V.tensor(k, [n], np=True))


def norms(nl, bias):
    @obligation('norms of %d layers%s' % (nl, '' if bias else ' without bias'), 'compute_parameter_norms', scope='layers of any sizes, any parameters; %d layers (bounded)' % nl)
    def _(V):
        names = ['l2', 'a', 'zz'][:nl]
        po = []
        for j, k in enumerate(names):
            i, o = V.dim('i%d' % j), V.dim('o%d' % j)
            l = V.call('overwrite_classes:SNN_Linear', i, o, bias=bias)
            d = V.ex.force(V.m(l, 'get_parameter_dict'))
            ext.dict_set(V.ex, d, 'weight', V.tensor('W' + k, [o, i], grad=True))
            if bias:
                ext.dict_set(V.ex, d, 'bias', V.tensor('B' + k, [o], grad=True))
            po.append((k, l))
        r = dict(V.entries(V.call('shooting_hooks:compute_parameter_norms', V.sdict(po))))
        want = {}
        tot = dict(frobenius=num(0), nuclear=num(0), spectral=num(0))
        for j, (k, l) in enumerate(po):
            W = V.item(V.m(l, 'get_parameter_dict'), 'weight').term
            a, b = z3.Int('sa%d' % j), z3.Int('sb%d' % j)
            f = esum(a, W.lead[0], esum(b, W.lead[1], powi(sigma.elem(W, [a, b]), 2)))
            W = T.detach(W)
            u = powi(sigma.elem(Tensor('opaque', [], None, name='norm:nuc', args=(W,)), []), 2)
            s = powi(sigma.elem(Tensor('opaque', [1], None, name='svd:S', args=(W,)), [0]), 2)
            for n, v in (('frobenius', f), ('nuclear', u), ('spectral', s)):
                want['sqr_%s_norm_%s.weight' % (n, k)] = v
                tot[n] = add(tot[n], v)
        for n in tot:
            want['sum_sqr_%s_norm' % n] = tot[n]
        V.true(sorted(want) == sorted(r), 'names of the norms')
        for k in want:
            g = r[k]
            V.eq(sigma.elem(g.term, []) if isinstance(g, PTensor) else num(g), want[k], k)
        for k, l in po:
            V.true(V.item(V.m(l, 'get_parameter_dict'), 'weight').term.kw.get('name') == 'W' + k, 'parameters unchanged')


for nl in (1, 2, 3):
    for bias in (True, False):
        norms(nl, bias)


def anylayers(bias):
    @obligation('norms of any number of layers%s' % ('' if bias else ' without bias'), 'compute_parameter_norms', scope='any number of layers of any sizes, any parameters', helper=True)
    def _(V):
        b = z3.Int('layer!b')
        n = V.dim('layers', 0)
        key = z3.Function('layer', z3.IntSort(), KeySort)
        V.ex.ctx.injective['layer'] = 0
        fo, fi = z3.Function('rows', z3.IntSort(), z3.IntSort()), z3.Function('columns', z3.IntSort(), z3.IntSort())
        V.ex.ctx.axioms['rows'] = lambda j: fo(j) >= 1
        V.ex.ctx.axioms['columns'] = lambda j: fi(j) >= 1

        def fam(x):
            Heap.objs.remove(x)
            return FamRef(Fam(x, [b]), [b])
        ents = [('weight', fam(PTensor(tvar('W', (b,), [fo(b), fi(b)]), requires_grad=True)))]
        if bias:
            ents.append(('bias', fam(PTensor(tvar('B', (b,), [fo(b)]), requires_grad=True))))
        l = fam(PInst(V.get('overwrite_classes:RemoveParameters'), {'_parameter_dict': fam(V.sdict(ents)), '_parameter_weight_dict': fam(V.sdict([])), '_weight': None}))
        r = V.call('shooting_hooks:compute_parameter_norms', PDict('SortedDict', [Grp(0, n, b, key(b), l)]))
        W = tvar('W', (b,), [fo(b), fi(b)])
        i, j = fresh_bound(), fresh_bound()
        f = esum(i, W.lead[0], esum(j, W.lead[1], powi(sigma.elem(W, [i, j]), 2)))
        W = T.detach(W)
        u = powi(sigma.elem(Tensor('opaque', [], None, name='norm:nuc', args=(W,)), []), 2)
        s = powi(sigma.elem(Tensor('opaque', [1], None, name='svd:S', args=(W,)), [0]), 2)
        for nm, v in (('frobenius', f), ('nuclear', u), ('spectral', s)):
            g = V.item(r, 'sum_sqr_%s_norm' % nm)
            got = sigma.elem(g.term, []) if isinstance(g, PTensor) else num(g)
            want = esum(b, n, v)
            if V.ex.branch(n >= 1) and sigma.prove_eq(got, want, V.ex.ctx)[0] != 'proved':
                want = add(esubst(v, [(b, z3.IntVal(0))]), esum(b, simp(n - 1), esubst(v, [(b, b + 1)])))    # the first layer apart
            V.eq(got, want, 'sum over the layers: %s' % nm)
        V.eqint(ext.dict_len(V.ex, V.ex.force(r)), simp(3 * n + 3), 'no other names')
        if V.ex.branch(n >= 1):
            m = V.ex.fresh_int('m')
            V.ex.ctx.stack += [m >= 0, m < n]
            V.ex.ctx.index.append(m)
            if V.ex.branch(m == 0):
                m = z3.IntVal(0)
            for nm, v in (('frobenius', f), ('nuclear', u), ('spectral', s)):
                g = V.item(r, SStr(['sqr_%s_norm_' % nm, key(m), '.weight']))
                V.eq(sigma.elem(g.term, []) if isinstance(g, PTensor) else num(g), esubst(v, [(b, m)]), 'norm of every layer: %s' % nm)


for bias in (True, False):
    anylayers(bias)
