"""C01: packing into one vector and unpacking are inverse."""
from proofs.dod import *

P = 'state_costate_and_data_dictionary_utils:'
SC = 'any number of (non-empty) blocks and entries, tensors of any shape and content'
ASM = '_assemble_generic_dict_of_dicts: contract'
DIS = '_disassemble_dict_of_dicts: contract (dim=%d)'


def check_flat(V, vec, d):
    """vec = flat2(d): same length, and equal at the k-th number of entry e of block b for all b, e, k (these are all positions)"""
    vec = V.ex.force(vec)
    if not isinstance(vec, PTensor):
        V.fail('a vector', type(vec).__name__)
    V.shape(vec, [size2(d)], 'length of the vector')
    b, e = d.generic()
    k = V.int('k', 0, d.ten(b, e).numel())
    pos = simp(zi(off2(d, b, e)) + k)
    V.eq(sigma.elem(vec.term, [pos]), sigma.elem(vec1(d.ten(b, e)), [k]), 'the k-th number of entry e of block b sits after all earlier numbers')


@obligation(ASM, '_assemble_generic_dict_of_dicts, _assemble_generic_dict', scope=SC, helper=True)
def _(V):
    d = D2(V, 'd')
    vec, plan = V.call(P + '_assemble_generic_dict_of_dicts', d.obj)
    check_flat(V, vec, d)
    check_plan(V, plan, d, 'plan')


def mkdis(dim):
    @obligation(DIS % dim, '_disassemble_dict_of_dicts, _disassemble_dict', scope=SC + '; any vector, any offset, ' + ('' if dim == 0 else 'any number of times'), helper=True)
    def _(V):
        d = D2(V, 'd')
        L = V.dim('L', 0)
        incr = V.int('incr', 0)
        V.assume(incr + zi(size2(d)) <= L)
        v = V.tensor('v', [L] if dim == 0 else [V.dim('T'), L])
        r, end = V.call(P + '_disassemble_dict_of_dicts', v, plan2(d), dim, incr)
        V.eqint(end, simp(incr + zi(size2(d))), 'position after the last entry')
        check_pieces(V, r, d, v.term, incr, dim)


mkdis(0)
mkdis(1)


@obligation('pack, unpack = identity', 'assemble_tensor, disassemble_tensor', scope=SC, uses=[ASM, DIS % 0])
def _(V):
    ds = [D2(V, n) for n in ('state', 'costate', 'data')]
    use_contracts(V, ds)
    vec, plan = V.call(P + 'assemble_tensor', *[d.obj for d in ds])
    pl = V.ex.force(plan)
    V.eqint(V.ex.force(vec).term.lead[0], simp(sum(zi(size2(d)) for d in ds)), 'every number is used exactly once')
    for d, k in zip(ds, ('state_dicts', 'costate_dicts', 'data_dicts')):
        d.plan = V.item(plan, k)
        check_plan(V, d.plan, d, 'plan ' + k)
    r = V.call(P + 'disassemble_tensor', vec, plan)
    V.true(isinstance(r, tuple) and len(r) == 3, 'three groups')
    for x, y in zip(r, ds):
        check_same(V, x, y, y.name)


@obligation('unpacking a vector with a time axis', 'disassemble_tensor', scope=SC + '; any number of times', uses=[DIS % 1])
def _(V):
    ds = [D2(V, n) for n in ('state', 'costate', 'data')]
    use_contracts(V, ds, (1,))
    for d in ds:
        d.plan = plan2(d)
    n = simp(sum(zi(size2(d)) for d in ds))
    v = V.tensor('v', [V.dim('T'), n])
    plan = V.sdict([(k, d.plan) for d, k in zip(ds, ('state_dicts', 'costate_dicts', 'data_dicts'))], 'dict')
    r = V.call(P + 'disassemble_tensor', v, assembly_plans=plan, dim=1)
    off = 0
    for x, d in zip(r, ds):
        check_pieces(V, x, d, v.term, off, 1)
        off = simp(zi(off) + zi(size2(d)))


@obligation('unpacking without a plan is refused', 'disassemble_tensor', scope='any vector, any number of dimensions')
def _(V):
    v = PTensor(tvar('v', (), [V.dim('L', 0)]))
    V.raises(lambda: V.call(P + 'disassemble_tensor', v), 'no plan', ['ValueError'])
    V.raises(lambda: V.call(P + 'disassemble_tensor', v, None, 1), 'no plan, time axis', ['ValueError'])


@obligation('only sorted dictionaries are packed', 'assemble_tensor', scope='any number of entries')
def _(V):
    d = D2(V, 'd', inner='dict')
    g = D2(V, 'g')
    V.raises(lambda: V.call(P + 'assemble_tensor', d.obj, g.obj, g.obj), 'block is a plain dictionary', ['ValueError'])
