"""Symbolic Python objects (mutable, path-local) and the proof context."""
from .terms import *
from contextlib import contextmanager
import time


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc          # PInst-like ExcVal


class ExcVal(object):
    def __init__(self, name, args=(), bases=()):
        self.name = name
        self.args = args
        self.bases = bases

    def __repr__(self):
        return 'ExcVal(%s)' % self.name


class SStr(object):
    """symbolic string: tuple of parts (str | z3 Key term | ('v', value))"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, str) and p == '':
                continue
            else:
                out.append(p)
        self.parts = tuple(out)

    def key(self):
        return 'S' + '+'.join(repr(p) if isinstance(p, str) else akey(p) if is_z3(p) else vkey(p[1]) for p in self.parts)

    def __repr__(self):
        return self.key()


def sstr(*parts):
    ps = []
    for p in parts:
        if isinstance(p, SStr):
            ps += list(p.parts)
        else:
            ps.append(p)
    s = SStr(ps)
    if len(s.parts) == 0:
        return ''
    if len(s.parts) == 1 and (isinstance(s.parts[0], str) or is_z3(s.parts[0])):
        return s.parts[0]
    return s


class Opt(object):
    """value that is None iff isnone"""

    def __init__(self, isnone, val):
        self.isnone = isnone
        self.val = val


class Poison(object):
    def __init__(self, why, loc=None):
        self.why = why
        self.loc = loc


class ReadPoison(Exception):
    def __init__(self, p):
        self.p = p


class Heap(object):
    ctr = 0
    objs = []


class PObj(object):
    _fields = ()

    def __init__(self):
        Heap.ctr += 1
        self.oid = Heap.ctr
        Heap.objs.append(self)

    def save(self):
        return [copy1(getattr(self, f)) for f in self._fields]

    def load(self, s):
        for f, v in zip(self._fields, s):
            setattr(self, f, copy1(v))


def copy1(v):
    if isinstance(v, list):
        return [copy1(x) if isinstance(x, list) else x for x in v]
    if isinstance(v, dict):
        return dict(v)
    return v


class Seg(object):
    """segment lo<=i<hi of a sequence with element body(i)"""

    def __init__(self, lo, hi, ivar, body):
        self.lo, self.hi, self.ivar, self.body = simp(lo), simp(hi), ivar, body

    def at(self, t):
        return vsub(self.body, [(self.ivar, zi(t))])

    def length(self):
        return simp(zi(self.hi) - zi(self.lo))


class Flat(object):
    """segment: for i in [lo,hi): for j in [0, len(inner(i)))  inner(i) a list of Seg/concrete items"""

    def __init__(self, lo, hi, ivar, inner):
        self.lo, self.hi, self.ivar, self.inner = simp(lo), simp(hi), ivar, inner

    def inner_len(self):
        n = 0
        for s in self.inner:
            n = simp(zi(n) + zi(seg_len(s)))
        return n

    def length(self):
        f = PS.get(self.ivar, zi(self.inner_len()))
        return simp(zi(f(self.hi)) - zi(f(self.lo)))


def seg_len(s):
    if isinstance(s, (Seg, Flat)):
        return s.length()
    if isinstance(s, Base):
        raise ReadPoison(Poison('length of loop-carried list', s.loc))
    return 1


class Base(object):
    def __init__(self, loc):
        self.loc = loc


class Item(object):
    """concrete list element"""

    def __init__(self, v):
        self.v = v


class PList(PObj):
    _fields = ('segs',)

    def __init__(self, items=(), segs=None, kind='list'):
        super().__init__()
        self.kind = kind
        self.segs = segs if segs is not None else [Item(x) for x in items]

    def concrete(self):
        return all(isinstance(s, Item) for s in self.segs)

    def items(self):
        return [s.v for s in self.segs]

    def length(self):
        n = 0
        for s in self.segs:
            n = simp(zi(n) + zi(seg_len(s)))
        return n


class SymTuple(object):
    """immutable sequence with symbolic length"""

    def __init__(self, segs):
        self.segs = segs

    def length(self):
        n = 0
        for s in self.segs:
            n = simp(zi(n) + zi(seg_len(s)))
        return n


class Ent(object):
    def __init__(self, k, v):
        self.k, self.v = k, v


class Grp(object):
    """entries key(i)->val(i) for lo<=i<hi, keys pairwise distinct"""

    def __init__(self, lo, hi, ivar, key, val, mix=False):
        # mix: one of several groups that were filled in turn, so that their order of insertion is not one after the other
        self.lo, self.hi, self.ivar, self.key, self.val, self.mix = simp(lo), simp(hi), ivar, key, val, mix

    def kat(self, t):
        return vsub(self.key, [(self.ivar, zi(t))])

    def vat(self, t):
        return vsub(self.val, [(self.ivar, zi(t))])

    def length(self):
        return simp(zi(self.hi) - zi(self.lo))


class PDict(PObj):
    _fields = ('ents',)

    def __init__(self, kind='dict', ents=None, factory=None):
        super().__init__()
        self.kind = kind
        self.ents = ents if ents is not None else []
        self.factory = factory

    def concrete(self):
        return all(isinstance(e, Ent) and isinstance(e.k, (str, int, tuple)) for e in self.ents)


class PInst(PObj):
    _fields = ('attrs',)

    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}


class InstDict(PDict):
    """the __dict__ of an instance: a view, reads and writes go to the attributes"""
    _fields = ()

    def __init__(self, inst):
        self._c, self.inst = [], inst
        super().__init__('dict', [Ent(k, v) for k, v in inst.attrs.items()])

    @property
    def ents(self):
        a = self.inst.attrs
        if len(a) != len(self._c) or any(e.k != k or e.v is not v for e, (k, v) in zip(self._c, a.items())):
            self._c = [Ent(k, v) for k, v in a.items()]
        return self._c

    @ents.setter
    def ents(self, l):
        if not all(isinstance(e, Ent) and isinstance(e.k, str) for e in l):
            raise Unsupported('attribute dictionary with unknown names')
        self.inst.attrs = {e.k: e.v for e in l}
        self._c = list(l)


class PTensor(PObj):
    """tensor object: mutable box around an immutable term"""
    _fields = ('term', 'flags')
    nograd = False          # inside torch.no_grad(): results do not take part in differentiation

    def __init__(self, term, **flags):
        super().__init__()
        if PTensor.nograd and term.op not in ('var', 'full', 'detach'):
            term = Tensor('detach', term.lead, term.tail, t=term)
            flags = dict(flags, requires_grad=False)
        self.term = term
        self.flags = flags


class IntVec(PObj):
    """1-D integer tensor with explicit entries (or an opaque shape)"""
    _fields = ('vals', 'oshape', 'viewed')

    def __init__(self, vals, oshape=None, scalar=False):
        super().__init__()
        self.vals = list(vals)
        self.oshape = oshape
        self.scalar = scalar        # 0-dimensional
        self.viewed = False         # an entry was read: writing afterwards would be seen through it


class Fam(object):
    """family of heap objects indexed by ivars; template is a PObj"""
    ctr = 0

    def __init__(self, template, ivars):
        Fam.ctr += 1
        self.fid = Fam.ctr
        self.template = template
        self.ivars = list(ivars)


class FamRef(object):
    def __init__(self, fam, idx):
        self.fam = fam
        self.idx = tuple(zi(i) for i in idx)

    def key(self):
        return 'fam%d%s' % (self.fam.fid, akey(self.idx))


# ------------------------------------------------------------------ substitution / keys on values

def vsub(v, pairs):
    if v is None or isinstance(v, (bool, int, str, Fraction, float)):
        return v
    if isinstance(v, Expr):
        return esubst(v, pairs)
    if is_z3(v):
        return simp(z3.substitute(v, *pairs))
    if isinstance(v, Tensor):
        return tsubst(v, pairs)
    if isinstance(v, tuple):
        return tuple(vsub(x, pairs) for x in v)
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else z3.substitute(p, *pairs) if is_z3(p) else ('v', vsub(p[1], pairs)) for p in v.parts])
    if isinstance(v, ShapeVal):
        return ShapeVal([vsub(x, pairs) for x in v.lead], OShape(z3.substitute(v.tail.term, *pairs)) if v.tail else None)
    if isinstance(v, Opt):
        c = vsub(v.isnone, pairs)
        if c is True:
            return None
        if c is False:
            return vsub(v.val, pairs)
        return Opt(c, vsub(v.val, pairs))
    if isinstance(v, FamRef):
        return FamRef(v.fam, [z3.substitute(i, *pairs) for i in v.idx])
    if isinstance(v, Seg):
        return Seg(vsub(v.lo, pairs), vsub(v.hi, pairs), v.ivar, vsub(v.body, pairs))
    if isinstance(v, Flat):
        return Flat(vsub(v.lo, pairs), vsub(v.hi, pairs), v.ivar, [vsub(x, pairs) for x in v.inner])
    if isinstance(v, Item):
        return Item(vsub(v.v, pairs))
    if isinstance(v, SymTuple):
        return SymTuple([vsub(s, pairs) for s in v.segs])
    if isinstance(v, Ent):
        return Ent(vsub(v.k, pairs), vsub(v.v, pairs))
    if isinstance(v, Grp):
        return Grp(vsub(v.lo, pairs), vsub(v.hi, pairs), v.ivar, vsub(v.key, pairs), vsub(v.val, pairs), v.mix)
    if isinstance(v, BM):
        return BM(v.func, vsub(v.self_, pairs), v.cls)
    return v        # references to fixed objects, functions, classes ...


class BM(object):
    """bound method"""

    def __init__(self, func, self_, cls=None):
        self.func, self.self_, self.cls = func, self_, cls


def vkey(v):
    if isinstance(v, PTensor):
        return 'obj%d' % v.oid
    if isinstance(v, PObj):
        return 'obj%d' % v.oid
    if isinstance(v, (Expr, Tensor, SStr, FamRef, ShapeVal)):
        return v.key()
    if is_z3(v):
        return v.sexpr()
    if isinstance(v, tuple):
        return '(' + ','.join(vkey(x) for x in v) + ')'
    if isinstance(v, Opt):
        return 'opt(%s,%s)' % (vkey(v.isnone), vkey(v.val))
    if isinstance(v, Item):
        return 'I' + vkey(v.v)
    if isinstance(v, Seg):
        return 'Seg[%s,%s)%s.%s' % (vkey(v.lo), vkey(v.hi), v.ivar, vkey(v.body))
    if isinstance(v, Flat):
        return 'Flat[%s,%s)%s.%s' % (vkey(v.lo), vkey(v.hi), v.ivar, [vkey(x) for x in v.inner])
    if isinstance(v, Ent):
        return 'E%s:%s' % (vkey(v.k), vkey(v.v))
    if isinstance(v, Grp):
        return 'G[%s,%s)%s.%s:%s' % (vkey(v.lo), vkey(v.hi), v.ivar, vkey(v.key), vkey(v.val))
    if isinstance(v, SymTuple):
        return 'ST' + str([vkey(s) for s in v.segs])
    if isinstance(v, BM):
        return 'BM%s.%s' % (id(v.func), vkey(v.self_))
    if isinstance(v, list):
        return '[' + ','.join(vkey(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (vkey(k), vkey(x)) for k, x in v.items()) + '}'
    return '%s#%s' % (type(v).__name__, repr(v) if isinstance(v, (bool, int, str, Fraction, float, type(None))) else id(v))


# ------------------------------------------------------------------ proof context

class Stats(object):
    queries = 0
    time = 0.0
    obligations = []


class Infeasible(Exception):
    pass


class Ctx(object):
    def __init__(self, timeout=4000):
        self.base = []
        self.stack = []
        self.index = []            # candidate index terms
        self.injective = {}        # name -> number of params before the index
        self.cache = {}
        self.timeout = timeout
        self.strconst = {}
        self.pairs = {}            # input function -> (application, application -> fact)
        self.axioms = {}           # input function -> (args -> fact holding everywhere)
        self.foralls = []          # (lo, hi, ivar, t -> formula): instantiated at the candidate indices

    def facts(self):
        return self.base + self.stack

    def add(self, *fs):
        for f in fs:
            if f is True:
                continue
            if f is False:
                f = z3.BoolVal(False)
            self.base.append(f)
        self.cache = {}

    @contextmanager
    def assume(self, *fs):
        n = len(self.stack)
        m = len(self.index)
        for f in fs:
            if f is True:
                continue
            self.stack.append(z3.BoolVal(False) if f is False else f)
        try:
            yield
        finally:
            del self.stack[n:]
            del self.index[m:]

    def canon(self, t):
        return z3.simplify(zi(t), som=True)

    def cands(self, k):
        """candidate piece indices for resolving a symbolic concatenation at index k"""
        out = list(self.index)
        for v in free_consts(k):
            if v.sort() == z3.IntSort():
                out.append(v)
        # arguments of prefix sums occurring in k
        st = [k]
        while st:
            x = st.pop()
            if z3.is_app(x):
                if x.decl().name().startswith('PS') and x.num_args() > 0:
                    out.append(x.arg(x.num_args() - 1))
                st.extend(x.children())
        out.append(z3.IntVal(0))
        return out

    def kconst(self, s):
        if s not in self.strconst:
            c = z3.Const('str:' + s, KeySort)
            for o in self.strconst.values():
                self.base.append(o != c)
            self.strconst[s] = c
            self.cache = {}
        return self.strconst[s]

    def key_instances(self, fmls):
        if not self.injective:
            return []
        apps = {}
        seen = set()
        for g in fmls:
            for x in apps_of(g):
                nm = x.decl().name()
                if nm in self.injective and x.get_id() not in seen:
                    seen.add(x.get_id())
                    apps.setdefault(nm, []).append(x)
        out = []
        for nm, xs in apps.items():
            for i in range(len(xs)):
                for j in range(i):
                    a, b = xs[i], xs[j]
                    n = a.num_args()
                    same = [a.arg(k) == b.arg(k) for k in range(n - 1)]
                    out.append(z3.Implies(z3.And(*(same + [a == b])), a.arg(n - 1) == b.arg(n - 1)))
        return out

    def plain(self, fs):
        return all(not apps_of(f) for f in fs)

    def axiom_instances(self, fmls):
        out = []
        seen = set()
        two = {}
        for g in fmls:
            for x in apps_of(g):
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                n = x.decl().name()
                a = self.axioms.get(n)
                if a is not None:
                    out.append(a(*x.children()))
                if n in self.pairs:
                    two.setdefault(n, []).append(x)
        for n, xs in two.items():
            xs = xs + [x for x in self.pairs[n][0] if x.get_id() not in seen]
            out += [self.pairs[n][1](x, y) for x in xs for y in xs if x is not y]
        return out

    def count_query(self):
        Stats.queries += 1

    def check(self, *extra, timeout=None):
        """sat/unsat/unknown of facts + extra"""
        fs = self.facts() + [e for e in extra]
        fs = [f for f in fs if not (isinstance(f, bool) and f)]
        fs = [z3.BoolVal(False) if isinstance(f, bool) else f for f in fs]
        fa = []
        if self.foralls:
            seen = set()
            cs = list(self.index)
            for f in fs:
                for v in free_consts(f):
                    if is_zint(v):
                        cs.append(v)
            for c in cs:
                if c.get_id() in seen:
                    continue
                seen.add(c.get_id())
                for lo, hi, iv, g in self.foralls:
                    b = g(c)
                    if b is True:
                        continue
                    fa.append(z3.Implies(z3.And(c >= lo, c < hi), b if is_z3(b) else z3.BoolVal(bool(b))))
        fs = fs + fa
        if self.axioms or self.pairs:
            fs = fs + self.axiom_instances(fs)
        k = '\x00'.join(str(f.get_id()) for f in fs)
        hit = self.cache.get(k)
        if hit is not None:
            return hit[0]
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for f in fs:
            s.add(f)
        more = self.key_instances(fs) + PS.instances(fs, []) if not self.plain(fs) else []
        r = z3.unknown
        if len(more) > 12:
            # most questions do not need the instances
            s.set('timeout', 300)
            r = s.check()
            Stats.queries += 1
            s.set('timeout', timeout or self.timeout)
        if r != z3.unsat:
            for f in more:
                s.add(f)
            r = s.check()
            Stats.queries += 1
        Stats.time += time.time() - t0
        self.cache[k] = (r, fs)
        return r

    def infeasible(self):
        return self.check() == z3.unsat

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.check(z3.Not(c)) == z3.unsat:
            return True
        if self.check(c) == z3.unsat:
            return False
        return None
