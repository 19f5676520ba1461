"""C04: tuples of derivatives are put back under the right names.

Both directions are specified with the same numbering pos(b, e) of the entries, so that flattening and naming again is the
identity follows from the two contracts."""
from proofs.dod import *

P = 'state_costate_and_data_dictionary_utils:'
SC = 'any number of blocks / layers and entries (also none), any names, any prefix, any contents'


def vec(n, name='v'):
    """tuple of n arbitrary tensors"""
    i = z3.Int(name + '!i')
    S = z3.Function(name + '_S', II, SHAPE)
    ten = lambda t: tvar(name, (zi(t),), [], OShape(S(zi(t))))
    return SymTuple([Seg(0, n, i, ten(i))]), ten


def pos(d, b, e):
    x = z3.Int(d.name + '!cb')
    return simp(zi(PS.get(x, zi(d.E(x)))(b)) + zi(e))


def total(d):
    return pos(d, d.B, 0)


def kname(prefix, k):
    return k if prefix is None else SStr([prefix, k])


def at(V, t, i):
    return V.ex.force(V.item(t, i))


def objects(V, d):
    """the dictionary d as layers: each entry is an object of RemoveParameters that holds the block as its parameters"""
    cls = V.get('overwrite_classes:RemoveParameters')
    o = PInst(cls, {'_parameter_dict': FamRef(d.fam, [d.b]), '_parameter_weight_dict': None, '_weight': None})
    Heap.objs.remove(o)
    return PDict('SortedDict', [Grp(0, d.B, d.b, d.bk(d.b), FamRef(Fam(o, [d.b]), [d.b]))])


@obligation('compute_tuple_from_generic_dict: contract', 'compute_tuple_from_generic_dict', scope=SC)
def _(V):
    d = D1(V, 'd', 0)
    t = V.call(P + 'compute_tuple_from_generic_dict', d.obj)
    V.true(isinstance(t, (tuple, SymTuple)), 'tuple')
    V.eqint(ext._len(V.ex, [V.ex.force(t)], {}), d.E, 'as many elements as entries')
    if V.ex.branch(simp(zi(d.E) > 0)):
        e = V.int('ge', 0, d.E)
        V.tensor_eq(at(V, t, e), d.ten(e), 'e-th element is the e-th entry')


def dict_case(prefixed):
    @obligation('extract_dict_from_tuple_based_on_generic_dict: contract (%s)' % ('any prefix' if prefixed else 'no prefix'), 'extract_dict_from_tuple_based_on_generic_dict', scope=SC)
    def _(V):
        d = D1(V, 'd', 0)
        v, ten = vec(d.E)
        pre = z3.Const('prefix', KeySort) if prefixed else None
        r = V.ex.force(V.call(P + 'extract_dict_from_tuple_based_on_generic_dict', v, d.obj, **({'prefix': pre} if prefixed else {})))
        V.true(isinstance(r, PDict) and r.kind == 'SortedDict', 'sorted dictionary')
        V.eqint(ext.dict_len(V.ex, r), d.E, 'as many entries')
        if V.ex.branch(simp(zi(d.E) > 0)):
            e = V.int('ge', 0, d.E)
            V.ex.ctx.index.append(e)
            V.tensor_eq(V.item(r, kname(pre, d.ek(e))), ten(e), 'e-th element under the e-th name')


def two(name, f, g, mk):
    @obligation('%s: contract' % f, f, scope=SC)
    def _(V):
        d = D2(V, 'd', lo=0, elo=0)
        t = V.call(P + f, mk(V, d))
        V.true(isinstance(t, (tuple, SymTuple)), 'tuple')
        V.eqint(ext._len(V.ex, [V.ex.force(t)], {}), total(d), 'as many elements as entries')
        if V.ex.branch(simp(zi(d.B) > 0)):
            b, e = d.generic()
            V.ex.ctx.index.append(zi(pos(d, b, e)))
            V.tensor_eq(at(V, t, pos(d, b, e)), d.ten(b, e), 'the elements are the entries, in order')

    for prefixed in (False, True):
        @obligation('%s: contract (%s)' % (g, 'any prefix' if prefixed else 'no prefix'), g, scope=SC)
        def _(V, prefixed=prefixed):
            d = D2(V, 'd', lo=0, elo=0)
            v, ten = vec(total(d))
            pre = z3.Const('prefix', KeySort) if prefixed else None
            check_named(V, d, V.call(P + g, v, mk(V, d), **({'prefix': pre} if prefixed else {})), pre, lambda b, e: ten(pos(d, b, e)))


def check_named(V, d, r, pre, want):
    r = V.ex.force(r)
    V.true(isinstance(r, PDict) and r.kind == 'SortedDict', 'sorted dictionary')
    V.eqint(ext.dict_len(V.ex, r), d.B, 'as many blocks')
    if V.ex.branch(simp(zi(d.B) > 0)):
        b = V.int('gb', 0, d.B)
        V.ex.ctx.index.append(b)
        blk = V.ex.force(V.item(r, d.bk(b)))
        V.true(isinstance(blk, PDict) and blk.kind == 'SortedDict', 'block is a sorted dictionary')
        V.eqint(ext.dict_len(V.ex, blk), d.E(b), 'number of entries of a block')
        if V.ex.branch(simp(zi(d.E(b)) > 0)):
            e = V.int('ge', 0, d.E(b))
            V.ex.ctx.index.append(e)
            V.tensor_eq(V.item(blk, kname(pre, d.ek(b, e))), want(b, e), 'element under its name')


dict_case(False)
dict_case(True)
two('dict of dicts', 'compute_tuple_from_generic_dict_of_dicts', 'extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts', lambda V, d: d.obj)
two('layers', 'compute_tuple_from_parameter_objects', 'extract_dict_from_tuple_based_on_parameter_objects', objects)
