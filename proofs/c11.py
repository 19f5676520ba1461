"""C11: striding keeps, along the chosen dimensions, the entries at offset (size mod stride), offset + stride, ... and nothing else."""
import itertools
from proofs.dod import *

M = 'striding_block:ShootingStridingBlock'


def dims(V, name, rank, ax, st):
    """sizes of the tensors: arbitrary, depending on block and entry"""
    fs = [z3.Function('%s_n%d' % (name, i), II, II, II) for i in range(rank)]
    for f in fs:
        V.ex.ctx.axioms[f.name()] = lambda b, e, f=f: f(b, e) >= 1
    return lambda b, e: [f(zi(b), zi(e)) for f in fs]


def strided(t, ax, st):
    """the specification: (shape, element)"""
    lead = list(t.lead)
    for a, s in zip(ax, st):
        lead[a] = simp(zi(t.lead[a]) / zi(s))

    def f(*i):
        i = list(i)
        for a, s in zip(ax, st):
            i[a] = simp(zi(t.lead[a]) % zi(s) + zi(i[a]) * zi(s))
        return sigma.elem(t, i)
    return lead, f


def check(V, got, d, ax, st, what):
    got = V.ex.force(got)
    V.true(isinstance(got, PDict) and got.kind == 'SortedDict', what + ': sorted dictionary')
    V.eqint(ext.dict_len(V.ex, got), d.B, what + ': number of blocks')
    b, e = d.generic()
    ext.iterate(V.ex, got)
    x = V.ex.force(V.item(got, d.bk(b)))
    V.true(isinstance(x, PDict) and x.kind == 'SortedDict', what + ': block')
    V.eqint(ext.dict_len(V.ex, x), d.E(b), what + ': number of entries')
    t = V.item(x, d.ek(b, e))
    V.tensor_eq(t, strided(d.ten(b, e), ax, st), what + ': entry')


def mk(rank, ax, extra, conv, scalar):
    nm = 'rank %d, dimensions %s, %d extra data dimension%s%s' % (rank, list(ax), extra, '' if extra == 1 else 's', {0: '', 1: ' (lists)', 2: ' (one stride)', 3: ' (one stride, lists)'}[conv + 2 * scalar])

    @obligation(nm, 'ShootingStridingBlock.__init__, forward, _stride_dict_of_dicts, _stride_dict, _stride_tensor_multiple_dimensions, _stride_tensor_single_dimension',
                scope='any number of blocks and entries, any sizes >= 1, any strides >= 1, any content')
    def _(V):
        st = [V.int('s%d' % i, 1) for i in range(1 if scalar else len(ax))]
        full = st * len(ax) if scalar else st
        c = (lambda v: PList(list(v))) if conv else tuple
        blk = V.call(M, stride=st[0] if scalar else c(st), stride_dims=ax[0] if scalar and len(ax) == 1 else c(ax))
        ds = []
        for n, r in (('state', rank), ('costate', rank), ('data', rank + extra)):
            a = [x + (extra if n == 'data' else 0) for x in ax]
            d = D2(V, n, lead=dims(V, n, r, a, full))
            ds.append((d, a))
        r = V.call(blk, *[d.obj for d, a in ds])
        V.true(isinstance(r, tuple) and len(r) == 3, 'three groups')
        for x, (d, a) in zip(r, ds):
            check(V, x, d, a, full, d.name)
        for d, a in ds:
            check_same(V, d.obj, d, 'input %s unchanged' % d.name)


for rank in (3, 4, 5):
    for k in range(1, rank - 1):
        for ax in itertools.combinations(range(2, rank), k):
            mk(rank, ax, 0, k % 2, 0)
            if rank + 1 <= 6:
                mk(rank, ax, 1, 1 - k % 2, 0)
for rank, ax, extra, conv, scalar in [(3, (2,), 0, 0, 1), (4, (2, 3), 0, 0, 1), (5, (2, 3, 4), 0, 1, 1), (4, (3, 2), 0, 0, 0), (5, (4, 2), 1, 0, 0), (4, (3,), 1, 0, 1), (3, (2,), 2, 0, 1), (4, (3, 2), 2, 0, 0), (3, (2,), 3, 1, 1), (6, (2, 3, 4, 5), 0, 0, 0), (6, (5,), 0, 0, 1), (6, (2, 5), 0, 0, 0)]:
    mk(rank, ax, extra, conv, scalar)


@obligation('refusals: arguments', 'ShootingStridingBlock.__init__', scope='any strides')
def _(V):
    s, t, u = V.int('s', 1), V.int('t', 1), V.int('u', 1)
    for c in (tuple, lambda v: PList(list(v))):
        V.raises(lambda: V.call(M, stride=c([s]), stride_dims=c([2, 3])), 'fewer strides than dimensions', ['ValueError'])
        V.raises(lambda: V.call(M, stride=c([s, t, u]), stride_dims=c([2, 3])), 'more strides than dimensions', ['ValueError'])
    V.raises(lambda: V.call(M, stride=z3.RealVal(2), stride_dims=(2,)), 'stride is not an integer', ['ValueError'])
    V.raises(lambda: V.call(M, stride=s, stride_dims='2'), 'dimension is not an integer', ['ValueError'])


def mkref(rank, ax, why):
    @obligation('refusal: %s (rank %d)' % (why, rank), 'ShootingStridingBlock._stride_tensor_single_dimension', scope='any number of blocks and entries, any sizes and stride')
    def _(V):
        s = V.int('s', 1)
        blk = V.call(M, stride=s, stride_dims=ax)
        ds = [D2(V, n, lead=dims(V, n, rank, [ax], [s])).obj for n in ('state', 'costate', 'data')]
        V.raises(lambda: V.call(blk, *ds), why, ['ValueError'])


for rank in (3, 4, 5):
    mkref(rank, 0, 'batch dimension')
    mkref(rank, 1, 'channel dimension')
    mkref(rank, rank, 'missing dimension')
