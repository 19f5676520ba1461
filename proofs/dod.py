"""Symbolic dictionaries: any number of blocks, each with any number of entries, tensors of any shape.

The keys of a dictionary are enumerated in the order in which it iterates (sorted, for a SortedDict): the e-th key of
block b is an unknown string ek(b,e), different for different e."""
from pyvc.prove import *

II = z3.IntSort()
SHAPE = ShapeSort


def keyfun(V, name, n):
    f = z3.Function(name, *([II] * n + [KeySort]))
    V.ex.ctx.injective[name] = n - 1
    return f


class D1(object):
    """dictionary with E entries; tensors of arbitrary shapes (opaque) or given lead dims"""

    def __init__(self, V, name, lo=0, lead=None, kind='SortedDict', E=None):
        self.name = name
        self.V = V
        self.E = V.dim(name + '_E', lo) if E is None else E
        self.ek = keyfun(V, name + '_ek', 1)
        self.S = z3.Function(name + '_S', II, SHAPE)
        self.lead = lead
        e = z3.Int(name + '!e')
        self.obj = PDict(kind, [Grp(0, self.E, e, self.ek(e), self.ten(e))])

    def ten(self, e):
        if self.lead is not None:
            return tvar(self.name, (zi(e),), self.lead(e))
        return tvar(self.name, (zi(e),), [], OShape(self.S(zi(e))))


class D2(object):
    """sorted dictionary of B sorted dictionaries with E(b) entries each"""

    def __init__(self, V, name, lo=1, elo=1, lead=None, kind='SortedDict', inner='SortedDict', same_keys=False, like=None):
        self.name = name
        self.V = V
        self.B = V.dim(name + '_B', lo) if like is None else like.B
        self.bk = keyfun(V, name + '_bk', 1) if like is None else like.bk
        if like is not None:             # the same blocks, each with as many entries (under other names)
            self.E = like.E
            self.ek = keyfun(V, name + '_ek', 2)
        elif same_keys:
            n = V.dim(name + '_E', elo)
            self.E = lambda b: n
            k = keyfun(V, name + '_ek', 1)
            self.ek = lambda b, e: k(e)
        else:
            E = z3.Function(name + '_E', II, II)
            PS.nonneg_fns.add(E.name())
            self.E = E
            V.ex.ctx.axioms[E.name()] = lambda b: E(b) >= elo
            self.ek = keyfun(V, name + '_ek', 2)
        self.S = z3.Function(name + '_S', II, II, SHAPE) if like is None else like.S
        self.lead = lead if like is None else like.lead
        b, e = z3.Int(name + '!b'), z3.Int(name + '!e')
        self.b, self.e = b, e
        if like is not None and lead is not None:
            self.lead = lead
        t = PDict(inner, [Grp(0, self.E(b), e, self.ek(b, e), self.ten(b, e))])
        Heap.objs.remove(t)
        self.fam = Fam(t, [b])
        self.obj = PDict(kind, [Grp(0, self.B, b, self.bk(b), FamRef(self.fam, [b]))])

    def ten(self, b, e):
        if self.lead is not None:
            return tvar(self.name, (zi(b), zi(e)), self.lead(b, e))
        return tvar(self.name, (zi(b), zi(e)), [], OShape(self.S(zi(b), zi(e))))

    def map(self, f, name):
        """the dictionary with f applied to every tensor"""
        m = D2.__new__(D2)
        m.__dict__.update(self.__dict__)
        m.name = name
        src = self
        m.ten = lambda b, e: f(src.ten(b, e))
        b, e = z3.Int(name + '!b'), z3.Int(name + '!e')
        m.b, m.e = b, e
        t = PDict('SortedDict', [Grp(0, m.E(b), e, m.ek(b, e), m.ten(b, e))])
        Heap.objs.remove(t)
        m.fam = Fam(t, [b])
        m.obj = PDict('SortedDict', [Grp(0, m.B, b, m.bk(b), FamRef(m.fam, [b]))])
        return m

    def generic(self, tag=''):
        """an arbitrary block and an arbitrary entry of it"""
        V = self.V
        b, e = z3.Int('gb%s!%s' % (tag, self.name)), z3.Int('ge%s!%s' % (tag, self.name))
        V.ex.ctx.stack += [b >= 0, b < zi(self.B), e >= 0, e < zi(self.E(b))]
        V.ex.ctx.index += [b, e]
        return b, e


def check_same(V, got, want, what):
    """dictionary of dictionaries `got` has exactly the blocks, entries (in order), shapes and values of the D2 `want`"""
    got = V.ex.force(got)
    if not isinstance(got, PDict):
        V.fail(what, 'not a dictionary')
    V.true(got.kind == 'SortedDict', what + ': sorted dictionary')
    V.eqint(ext.dict_len(V.ex, got), want.B, what + ': number of blocks')
    b, e = want.generic()
    it = ext.iterate(V.ex, got)
    d = V.ex.force(V.item(got, want.bk(b)))
    V.true(isinstance(d, PDict) and d.kind == 'SortedDict', what + ': block is a sorted dictionary')
    V.eqint(ext.dict_len(V.ex, d), want.E(b), what + ': number of entries')
    t = V.item(d, want.ek(b, e))
    V.tensor_eq(t, want.ten(b, e), what + ': entry')


# ------------------------------------------------------------------ specification functions

def catseq(body, ivar, n):
    f = PS.get(ivar, zi(body.lead[0]))
    return Tensor('catseq', [simp(f(n))], None, dim=0, n=simp(n), ivar=ivar, body=body)


def vec1(t):
    """all numbers of a tensor in row-major order"""
    if t.tail is None and len(t.lead) == 1:
        return t
    return Tensor('view', [t.numel()], None, t=t)


def flat1(d):
    e = z3.Int(d.name + '!fe')
    return catseq(vec1(d.ten(e)), e, d.E)


def flat2(d, b=None):
    """the entries of all blocks one after the other (blocks in order, entries in order)"""
    b = z3.Int(d.name + '!fb')
    e = z3.Int(d.name + '!fe')
    inner = catseq(vec1(d.ten(b, e)), e, d.E(b))
    return catseq(inner, b, d.B)


def plan1(d, kind='SortedDict'):
    e = z3.Int(d.name + '!pe')
    t = d.ten(e)
    return PDict(kind, [Grp(0, d.E, e, d.ek(e), ShapeVal(t.lead, t.tail))])


def plan2(d, kind='dict'):
    b, e = z3.Int(d.name + '!pb'), z3.Int(d.name + '!pe')
    t = d.ten(b, e)
    p = PDict('SortedDict', [Grp(0, d.E(b), e, d.ek(b, e), ShapeVal(t.lead, t.tail))])
    Heap.objs.remove(p)
    return PDict(kind, [Grp(0, d.B, b, d.bk(b), FamRef(Fam(p, [b]), [b]))])


def size2(d):
    return flat2(d).lead[0]


def off2(d, b, e):
    """position of entry (b, e) in flat2(d)"""
    x, y = z3.Int(d.name + '!fb'), z3.Int(d.name + '!fe')
    inner = PS.get(y, zi(vec1(d.ten(x, y)).lead[0]))
    outer = PS.get(x, zi(inner(d.E(x))))
    ib = PS.get(y, zi(vec1(d.ten(b, y)).lead[0]))
    return simp(zi(outer(b)) + zi(ib(e)))


def piece(v, off, t, dim):
    """the numbers of vector v from off on, in the shape of t (at every time for dim=1)"""
    n = t.numel()
    if dim == 0:
        s = Tensor('slice', [n], None, t=v, dim=0, start=simp(off), step=1)
        return Tensor('view', t.lead, t.tail, t=s)
    s = Tensor('slice', [v.lead[0], n], None, t=v, dim=1, start=simp(off), step=1)
    return Tensor('view', [v.lead[0]] + list(t.lead), t.tail, t=s)


def check_shape_eq(V, s, t, what):
    s = V.ex.force(s)
    if not isinstance(s, ShapeVal):
        V.fail(what, 'not a shape: %s' % type(s).__name__)
    V.true((s.tail is None) == (t.tail is None) and len(s.lead) == len(t.lead), what)
    for a, b in zip(s.lead, t.lead):
        V.eqint(a, b, what)
    if s.tail is not None:
        V.true(simp(s.tail.term == t.tail.term), what)


def check_plan(V, got, d, what):
    got = V.ex.force(got)
    if not isinstance(got, PDict):
        V.fail(what, 'not a dictionary')
    V.eqint(ext.dict_len(V.ex, got), d.B, what + ': number of blocks')
    ext.iterate(V.ex, got)
    b, e = d.generic('p')
    p = V.ex.force(V.item(got, d.bk(b)))
    V.true(isinstance(p, PDict), what + ': plan of a block')
    V.eqint(ext.dict_len(V.ex, p), d.E(b), what + ': number of entries')
    ext.iterate(V.ex, p)
    check_shape_eq(V, V.item(p, d.ek(b, e)), d.ten(b, e), what + ': shape of an entry')


# ------------------------------------------------------------------ contracts of the packing functions (C01)

P = 'state_costate_and_data_dictionary_utils:'


def use_contracts(V, ds, dims=(0,)):
    """calls on the symbolic groups ds are answered by the contracts proved below"""
    def asm(ex, a):
        for d in ds:
            if ex.force(a['d']) is d.obj:
                return (PTensor(flat2(d)), plan2(d))
        return NotImplemented
    V.contract(P + '_assemble_generic_dict_of_dicts', asm)

    def dis(ex, a):
        p, v, dim, incr = [ex.force(a[k]) for k in ('assembly_plans', 'input', 'dim', 'incr')]
        if dim not in dims or not isinstance(v, PTensor):
            return NotImplemented
        for d in ds:
            if p is d.plan:
                V.true(simp(z3.And(zi(incr) >= 0, zi(incr) + zi(size2(d)) <= zi(v.term.lead[dim]))), 'precondition of _disassemble_dict_of_dicts: the vector is long enough')
                b, e = z3.Int(d.name + '!rb'), z3.Int(d.name + '!re')
                t = piece(v.term, simp(zi(incr) + zi(off2(d, b, e))), d.ten(b, e), dim)
                o = PDict('SortedDict', [Grp(0, d.E(b), e, d.ek(b, e), t)])
                Heap.objs.remove(o)
                return (PDict('SortedDict', [Grp(0, d.B, b, d.bk(b), FamRef(Fam(o, [b]), [b]))]), simp(zi(incr) + zi(size2(d))))
        return NotImplemented
    V.contract(P + '_disassemble_dict_of_dicts', dis)


def transposed(V, t):
    """dimensions 1 and 2 exchanged"""
    return T.transpose(V.ex, PTensor(t), 1, 2).term


def check_pieces(V, r, d, v, incr, dim, tr=False):
    r = V.ex.force(r)
    V.true(isinstance(r, PDict) and r.kind == 'SortedDict', 'sorted dictionary of blocks')
    V.eqint(ext.dict_len(V.ex, r), d.B, 'number of blocks')
    ext.iterate(V.ex, r)
    b, e = d.generic()
    x = V.ex.force(V.item(r, d.bk(b)))
    V.true(isinstance(x, PDict) and x.kind == 'SortedDict', 'block is a sorted dictionary')
    V.eqint(ext.dict_len(V.ex, x), d.E(b), 'number of entries')
    ext.iterate(V.ex, x)
    t = V.item(x, d.ek(b, e))
    want = piece(v, simp(zi(incr) + zi(off2(d, b, e))), d.ten(b, e), dim)
    V.tensor_eq(t, transposed(V, want) if tr else want, 'entry')
