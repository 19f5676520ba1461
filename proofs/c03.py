"""C03: merging a block into a group is an exact union that leaves its inputs alone."""
from proofs.dod import *

P = 'state_costate_and_data_dictionary_utils:'
F = P + '_merge_state_costate_or_data_dict_with_generic_dict_of_dicts'
SC = 'any number of handed-over blocks and entries (also none), any names, any contents'


def unchanged(V, d, before, what):
    V.true(vkey(d.obj.ents) == before, what)


@obligation('new block and handed-over blocks', F[len(P):], scope=SC)
def _(V):
    d = D2(V, 'd', lo=0, elo=0)
    own = D1(V, 'own', 0)
    name = z3.Const('name', KeySort)
    x = z3.Int('x!n')
    V.ex.ctx.foralls.append((z3.IntVal(0), zi(d.B), x, lambda t: d.bk(t) != name))
    bd, bo = vkey(d.obj.ents), vkey(own.obj.ents)
    r = V.ex.force(V.call(F, own.obj, d.obj, name))
    V.true(isinstance(r, PDict) and r.kind == 'SortedDict', 'sorted dictionary')
    V.eqint(ext.dict_len(V.ex, r), simp(zi(d.B) + 1), 'exactly the handed-over blocks and the new one')
    V.is_(V.item(r, name), own.obj, 'the new block under its name')
    V.true(vkey(d.obj.ents) == bd and vkey(own.obj.ents) == bo, 'inputs are not modified')
    V.true(r is not d.obj and r is not own.obj, 'the result is a new dictionary')
    check_blocks(V, r, d)


def check_blocks(V, r, d):
    if V.ex.branch(simp(zi(d.B) > 0)):
        b = z3.Int('gb')
        V.ex.ctx.stack += [b >= 0, b < zi(d.B)]
        V.ex.ctx.index.append(b)
        blk = V.ex.force(V.item(r, d.bk(b)))
        V.true(isinstance(blk, PDict) and blk.kind == 'SortedDict', 'block is a sorted dictionary')
        src = V.ex.force(V.item(d.obj, d.bk(b)))
        V.true(blk is not src and getattr(blk, 'famref', None) is not None and blk.famref.fam is not d.fam or blk is not src and getattr(blk, 'famref', None) is None, 'handed-over blocks are copied')
        V.eqint(ext.dict_len(V.ex, blk), d.E(b), 'number of entries')
        if V.ex.branch(simp(d.E(b) > 0)):
            e = z3.Int('ge')
            V.ex.ctx.stack += [e >= 0, e < zi(d.E(b))]
            V.ex.ctx.index.append(e)
            V.tensor_eq(V.item(blk, d.ek(b, e)), d.ten(b, e), 'entry')


@obligation('no new block', F[len(P):], scope=SC)
def _(V):
    d = D2(V, 'd', lo=0, elo=0)
    name = z3.Const('name', KeySort)
    x = z3.Int('x!n')
    V.ex.ctx.foralls.append((z3.IntVal(0), zi(d.B), x, lambda t: d.bk(t) != name))
    bd = vkey(d.obj.ents)
    r = V.ex.force(V.call(F, None, d.obj, name))
    V.eqint(ext.dict_len(V.ex, r), d.B, 'exactly the handed-over blocks')
    V.true(vkey(d.obj.ents) == bd and r is not d.obj, 'inputs are not modified, the result is new')
    check_blocks(V, r, d)


@obligation('no handed-over blocks', F[len(P):], scope=SC)
def _(V):
    own = D1(V, 'own', 0)
    name = z3.Const('name', KeySort)
    r = V.ex.force(V.call(F, own.obj, None, name))
    V.eqint(ext.dict_len(V.ex, r), 1, 'one block')
    V.is_(V.item(r, name), own.obj, 'the new block under its name')
    r = V.ex.force(V.call(F, None, None, name))
    V.eqint(ext.dict_len(V.ex, r), 0, 'neither: no blocks')


@obligation('a name that is already taken is refused', F[len(P):], scope=SC)
def _(V):
    d = D2(V, 'd', lo=1, elo=0)
    own = D1(V, 'own', 0)
    b = V.int('gb', 0, d.B)
    V.ex.ctx.index.append(b)
    bd = vkey(d.obj.ents)
    V.raises(lambda: V.call(F, own.obj, d.obj, d.bk(b)), 'name of a handed-over block', ['ValueError'])
    V.raises(lambda: V.call(F, None, d.obj, d.bk(b)), 'name of a handed-over block, no new block', ['ValueError'])
    V.true(vkey(d.obj.ents) == bd, 'inputs are not modified')
