"""Symbolic scalar expressions (Expr), tensor terms (Tensor) and collection summaries used by pyvc.

Integers, Booleans, keys and shapes are z3 terms.  Real-valued tensor content is kept in a small
expression language (Expr) with finite sums, case distinctions and uninterpreted element
applications; sigma.py puts it into canonical form.
"""
import sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from fractions import Fraction

KeySort = z3.DeclareSort('Key')
ShapeSort = z3.DeclareSort('Shape')
NUMEL = z3.Function('numel', ShapeSort, z3.IntSort())


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation becomes undecided, never refuted."""


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_zint(x):
    return isinstance(x, z3.ArithRef) and x.is_int()


def is_zbool(x):
    return isinstance(x, z3.BoolRef)


def zi(x):
    """python int / z3 int -> z3 int"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_zint(x):
        return x
    if is_zbool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an integer: %r' % (x,))


def simp(t):
    if not is_z3(t):
        return t
    r = z3.simplify(t, som=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def is_dimval(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or is_zint(x)


# ------------------------------------------------------------------ scalar expressions

class Expr(object):
    __slots__ = ('op', 'args', '_key', '_hash')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._key = None
        self._hash = None

    def key(self):
        if self._key is None:
            parts = []
            for a in self.args:
                parts.append(akey(a))
            self._key = '(' + self.op + ' ' + ' '.join(parts) + ')'
        return self._key

    def __eq__(self, o):
        return isinstance(o, Expr) and self.key() == o.key()

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key())
        return self._hash

    def __repr__(self):
        return self.key()


def akey(a):
    if isinstance(a, Expr):
        return a.key()
    if isinstance(a, (tuple, list)):
        return '[' + ' '.join(akey(x) for x in a) + ']'
    if is_z3(a):
        return a.sexpr()
    if isinstance(a, Tensor):
        return a.key()
    return repr(a)


def num(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return Expr('num', Fraction(int(x)))
    if isinstance(x, int):
        return Expr('num', Fraction(x))
    if isinstance(x, Fraction):
        return Expr('num', x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('infinite constant in real expression')
        return Expr('num', Fraction(repr(x)))
    if is_zint(x):
        x = simp(x)
        if isinstance(x, int):
            return Expr('num', Fraction(x))
        return Expr('int', x)
    if isinstance(x, z3.ArithRef):
        return real_expr(x)
    if is_zbool(x):
        return ite(x, num(1), num(0))
    raise Unsupported('not a real scalar: %r' % (x,))


def real_expr(x):
    """z3 real arithmetic -> Expr (variables stay 'real' atoms)"""
    if z3.is_rational_value(x):
        return Expr('num', Fraction(x.numerator_as_long(), x.denominator_as_long()))
    k = x.decl().kind()
    c = x.children()
    if k == z3.Z3_OP_TO_REAL:
        return num(c[0])
    if k == z3.Z3_OP_ADD:
        return add(*[real_expr(y) for y in c])
    if k == z3.Z3_OP_MUL:
        return mul(*[real_expr(y) for y in c])
    if k == z3.Z3_OP_SUB:
        r = real_expr(c[0])
        for y in c[1:]:
            r = sub(r, real_expr(y))
        return r
    if k == z3.Z3_OP_UMINUS:
        return neg(real_expr(c[0]))
    if k == z3.Z3_OP_DIV:
        return mul(real_expr(c[0]), inv(real_expr(c[1])))
    return Expr('real', x)


ZERO = num(0)
ONE = num(1)


def add(*xs):
    c = Fraction(0)
    out = []
    for x in xs:
        x = num(x)
        if x.op == 'num':
            c += x.args[0]
        elif x.op == 'add':
            for y in x.args:
                if y.op == 'num':
                    c += y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0 or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return Expr('add', *out)


def mul(*xs):
    c = Fraction(1)
    out = []
    for x in xs:
        x = num(x)
        if x.op == 'num':
            c *= x.args[0]
        elif x.op == 'mul':
            for y in x.args:
                if y.op == 'num':
                    c *= y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return Expr('mul', *out)


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def inv(x):
    x = num(x)
    if x.op == 'num':
        if x.args[0] == 0:
            raise Unsupported('division by the constant 0')
        return num(1 / x.args[0])
    if x.op == 'inv':
        return x.args[0]
    return Expr('inv', x)


def div(a, b):
    return mul(a, inv(b))


def powi(x, n):
    x = num(x)
    if n == 0:
        return ONE
    if n == 1:
        return x
    if n < 0:
        return inv(powi(x, -n))
    if x.op == 'num':
        return num(x.args[0] ** n)
    if n % 2 == 0 and x.op == 'fn' and x.args[0] == 'sqrt' and len(x.args) == 2 and nonneg_expr(x.args[1]):
        return powi(x.args[1], n // 2)
    return Expr('pow', x, n)


def nonneg_expr(x):
    """x is obviously >= 0"""
    o = x.op
    if o == 'num':
        return x.args[0] >= 0
    if o == 'pow':
        return x.args[1] % 2 == 0 or nonneg_expr(x.args[0])
    if o == 'sum':
        return nonneg_expr(x.args[2])
    if o in ('add', 'mul'):
        return all(nonneg_expr(y) for y in x.args)
    if o == 'det':
        return nonneg_expr(x.args[0])
    return False


def fn(name, x, *extra):
    return Expr('fn', name, num(x), *extra)


def ite(c, a, b):
    c = simp(c) if is_z3(c) else c
    if c is True:
        return num(a)
    if c is False:
        return num(b)
    a = num(a)
    b = num(b)
    if a == b:
        return a
    return Expr('ite', c, a, b)


def det(x):
    """value of x cut off from differentiation"""
    x = num(x)
    if x.op in ('num', 'int', 'real', 'det'):
        return x
    return Expr('det', x)


_sum_ctr = [0]


def fresh_bound(prefix='k'):
    _sum_ctr[0] += 1
    return z3.Int('%s!%d' % (prefix, _sum_ctr[0]))


def esum(var, hi, body):
    """sum_{0<=var<hi} body"""
    body = num(body)
    if body.op == 'num' and body.args[0] == 0:
        return ZERO
    h = simp(hi) if is_z3(hi) else hi
    if isinstance(h, int) and h <= 8:
        return add(*[esubst(body, [(var, z3.IntVal(k))]) for k in range(max(h, 0))]) if h > 0 else ZERO
    return Expr('sum', var, zi(hi), body)


def app(name, params, idx):
    return Expr('app', name, tuple(zi(p) for p in params) + tuple(zi(i) for i in idx))


def esubst(e, pairs):
    if isinstance(e, Expr):
        o = e.op
        if o == 'num':
            return e
        a = e.args
        if o == 'int':
            return num(simp(z3.substitute(a[0], *pairs)))
        if o == 'real':
            return num(z3.substitute(a[0], *pairs))
        if o == 'app':
            return Expr('app', a[0], tuple(z3.substitute(x, *pairs) for x in a[1]))
        if o == 'fn':
            return Expr('fn', a[0], esubst(a[1], pairs), *[esubst(x, pairs) if isinstance(x, Expr) else x for x in a[2:]])
        if o == 'add':
            return add(*[esubst(x, pairs) for x in a])
        if o == 'mul':
            return mul(*[esubst(x, pairs) for x in a])
        if o == 'pow':
            return powi(esubst(a[0], pairs), a[1])
        if o == 'inv':
            return inv(esubst(a[0], pairs))
        if o == 'ite':
            return ite(simp(z3.substitute(a[0], *pairs)), esubst(a[1], pairs), esubst(a[2], pairs))
        if o == 'det':
            return det(esubst(a[0], pairs))
        if o == 'ind':
            return ite(simp(z3.substitute(a[0], *pairs)), ONE, ZERO) if False else Expr('ind', z3.substitute(a[0], *pairs))
        if o == 'sum':
            return Expr('sum', a[0], z3.substitute(a[1], *pairs), esubst(a[2], pairs))
        if o == 'pick':
            return Expr('pick', tsubst(a[0], pairs), tuple(z3.substitute(zi(x), *pairs) for x in a[1]))
        if o == 'opaque':
            return Expr('opaque', a[0], tuple(tsubst(x, pairs) if isinstance(x, Tensor) else esubst(x, pairs) if isinstance(x, Expr) else z3.substitute(x, *pairs) if is_z3(x) else x for x in a[1]))
        raise Unsupported('esubst ' + o)
    return e


# ------------------------------------------------------------------ prefix sums over loop indices

class PS(object):
    """Registry of prefix sums  PS(p, i) = sum_{j<i} c(p, j)  as uninterpreted functions with instances."""
    reg = {}
    gen = 0
    nonneg_fns = set()       # input size functions: non-negative everywhere (values outside their range are irrelevant)

    @classmethod
    def reset(cls):
        cls.reg = {}
        cls.gen += 1
        _inst.clear()
        cls.nonneg_fns = set()

    @classmethod
    def syn_nonneg(cls, t):
        """non-negative whatever the values of the variables"""
        if z3.is_int_value(t):
            return t.as_long() >= 0
        if not z3.is_app(t):
            return False
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return all(cls.syn_nonneg(c) for c in t.children())
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            nm = t.decl().name()
            if nm in cls.nonneg_fns or nm == NUMEL.name():
                return True
            return any(r[0].name() == nm and r[4] and cls.syn_nonneg(r[3]) for r in cls.reg.values())
        return False

    @classmethod
    def get(cls, ivar, body, nonneg=True):
        """returns a function  t -> z3 Int term  for sum_{j<t} body[j/ivar]"""
        body = zi(body)
        b0 = simp(body)
        if isinstance(b0, int):
            return lambda t: simp(zi(t) * b0)
        if not any(v.eq(ivar) for v in free_consts(b0)):
            return lambda t: simp(zi(t) * b0)
        # sum_{j<t} b(j + c) = sum_{j<t+c} b(j) - sum_{j<c} b(j)
        c = offset_of(b0, ivar)
        if c is not None:
            g = cls.get(ivar, z3.simplify(z3.substitute(b0, (ivar, ivar - c))), nonneg)
            return lambda t: simp(zi(g(simp(zi(t) + c))) - zi(g(c)))
        free = []
        abstract_params(b0, ivar, free, False)
        canon = z3.Int('ps!i')
        params = [z3.Int('ps!p%d' % k) for k in range(len(free))]
        cb = z3.substitute(b0, *([(ivar, canon)] + list(zip(free, params))))
        # key by body with *index-like* constants abstracted; scalars that are global constants are abstracted too (harmless)
        k = z3.simplify(cb, som=True).sexpr() + '|%d%s' % (len(params), '+' if nonneg else '')
        if k not in cls.reg:
            f = z3.Function('PS%d' % len(cls.reg), *([z3.IntSort()] * (len(params) + 2)))
            cls.reg[k] = (f, canon, params, cb, nonneg)
        f = cls.reg[k][0]
        fr = list(free)

        def ap(t):
            t = zi(t)
            if z3.is_int_value(t) and t.as_long() == 0:
                return z3.IntVal(0)
            return f(*(fr + [t]))
        return ap

    @classmethod
    def instances(cls, fmls, cands):
        """ground instances of the defining equations / monotonicity for every PS application in fmls"""
        byfun = {}
        for r in cls.reg.values():
            byfun[r[0].name()] = r
        out = []
        seen = set()
        work = list(fmls)
        z = z3.IntVal(0)
        for _round in range(2):
            apps = {}
            for g in work:
                for x in apps_of(g):
                    nm = x.decl().name()
                    if nm in byfun:
                        n = x.num_args()
                        pargs = [x.arg(i) for i in range(n - 1)]
                        apps.setdefault((nm, tuple(p.get_id() for p in pargs)), (pargs, []))[1].append(x.arg(n - 1))
            new = []
            for (name, pk), (pargs, ts) in apps.items():
                f, canon, params, cb, nonneg = byfun[name]
                clamp = nonneg and not cls.syn_nonneg(cb)
                tl = dict((t.get_id(), t) for t in ts)
                for c in cands:
                    tl.setdefault(c.get_id(), c)
                tl.setdefault(z.get_id(), z)
                ts2 = list(tl.values())

                def C(t):
                    b = z3.substitute(cb, *([(canon, t)] + list(zip(params, pargs))))
                    return z3.If(b >= 0, b, 0) if clamp else b

                def inst(tag, t, u, mk):
                    kk = (name, pk, tag, t.get_id(), u.get_id() if u is not None else 0)
                    if kk in seen:
                        return
                    seen.add(kk)
                    r = _inst.get((cls.gen,) + kk)
                    if r is None:
                        r = _inst[(cls.gen,) + kk] = (mk(), t, u, pargs)
                    new.extend(r[0])

                def step(t):
                    ft = f(*(pargs + [t]))
                    r = [z3.Implies(t >= 0, f(*(pargs + [z3.simplify(t + 1)])) == ft + C(t))]
                    if nonneg:
                        r += [z3.Implies(t >= 0, ft >= 0), C(t) >= 0]
                    return r

                def mono(t, u):
                    ft, fu = f(*(pargs + [t])), f(*(pargs + [u]))
                    return [z3.Implies(z3.And(t >= 0, t < u), ft + C(t) <= fu), z3.Implies(t == u, ft == fu)]
                inst('zero', z, None, lambda: [f(*(pargs + [z])) == 0])
                for t in ts2:
                    inst('step', t, None, lambda: step(t))
                if nonneg:
                    for t in ts2:
                        for u in ts2:
                            if not t.eq(u):
                                inst('mono', t, u, lambda: mono(t, u))
            if not new:
                break
            out += new
            work = new
        done = set()
        for g in list(fmls) + out:
            for x in apps_of(g):
                if x.num_args() == 1 and x.decl().eq(NUMEL) and x.get_id() not in done:
                    done.add(x.get_id())
                    out.append(x >= 0)
        return out


_inst = {}
_apps = {}


def apps_of(g):
    """applications of uninterpreted functions in a formula (cached; the formula is kept alive so that its id stays valid)"""
    r = _apps.get(g.get_id())
    if r is not None:
        return r[1]
    out = []
    seen = set()
    st = [g]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            n = x.num_args()
            if n:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
                st.extend(x.children())
    _apps[g.get_id()] = (g, out)
    return out


_fconst = {}


def free_consts(t):
    if not is_z3(t):
        return []
    r = _fconst.get(t.get_id())
    if r is not None:
        return r[1]
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(reversed(x.children()))
    _fconst[t.get_id()] = (t, out)
    return out


def mentions(t, v):
    return any(c.eq(v) for c in free_consts(t))


def offset_of(b, iv):
    """c if the variable occurs in b only as iv + c, with one and the same c; None if it occurs on its own"""
    offs = []
    st = [b]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(iv):
            return None
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ADD and any(y.eq(iv) for y in x.children()):
                rest = [y for y in x.children() if not y.eq(iv)]
                if len(rest) == x.num_args() - 1 and not any(mentions(y, iv) for y in rest):
                    r = z3.simplify(rest[0] if len(rest) == 1 else z3.Sum(rest))
                    if not any(r.eq(o) for o in offs):
                        offs.append(r)
                    continue
            st.extend(x.children())
    return offs[0] if len(offs) == 1 else None


def abstract_params(b, iv, out, under):
    """maximal subterms without iv that are arguments of uninterpreted functions or constants"""
    if not mentions(b, iv):
        if is_zint(b) and (under or z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            if not any(b.eq(o) for o in out):
                out.append(b)
            return
    if z3.is_app(b):
        u = b.decl().kind() == z3.Z3_OP_UNINTERPRETED
        for c in b.children():
            abstract_params(c, iv, out, u)




# ------------------------------------------------------------------ shapes and tensors

class OShape(object):
    """opaque shape of unknown rank (z3 term of sort Shape); behaves as an immutable torch.Size"""

    def __init__(self, term):
        self.term = term

    def key(self):
        return self.term.sexpr()

    def numel(self):
        return NUMEL(self.term)


class ShapeVal(object):
    """torch.Size with explicit leading dims and an optional opaque tail"""

    def __init__(self, lead, tail=None):
        self.lead = [simp(x) for x in lead]
        self.tail = tail

    def numel(self):
        r = 1
        for d in self.lead:
            r = simp(zi(r) * zi(d))
        if self.tail is not None:
            r = self.tail.numel() if r == 1 else simp(zi(r) * self.tail.numel())
        return r

    def key(self):
        return 'shape' + akey(self.lead) + (self.tail.key() if self.tail else '')


class Tensor(object):
    """immutable tensor term. fields: op, args; lead (dims), tail (OShape|None)"""

    def __init__(self, op, lead, tail, **kw):
        self.op = op
        self.lead = [simp(zi(x)) if is_z3(x) else x for x in lead]
        self.tail = tail
        self.kw = kw
        self._key = None
        self.isbool = kw.get('isbool', False)

    def key(self):
        if self._key is None:
            self._key = 'T<' + self.op + ' ' + ' '.join('%s=%s' % (k, akey(v) if not isinstance(v, OShape) else v.key()) for k, v in sorted(self.kw.items())) + ' ' + akey(self.lead) + (self.tail.key() if self.tail else '') + '>'
        return self._key

    @property
    def rank(self):
        if self.tail is not None:
            return None
        return len(self.lead)

    def shape(self):
        return ShapeVal(self.lead, self.tail)

    def numel(self):
        return self.shape().numel()

    def nidx(self):
        return len(self.lead) + (1 if self.tail is not None else 0)

    def __repr__(self):
        return self.key()


def tvar(name, params, lead, tail=None, **kw):
    return Tensor('var', lead, tail, name=name, params=tuple(params), **kw)


def tfull(value, lead, tail=None, **kw):
    return Tensor('full', lead, tail, value=num(value), **kw)


def tsubst(t, pairs):
    if t is None:
        return None
    lead = [simp(z3.substitute(zi(x), *pairs)) if is_z3(x) else x for x in t.lead]
    tail = OShape(z3.substitute(t.tail.term, *pairs)) if t.tail is not None else None
    kw = {}
    for k, v in t.kw.items():
        kw[k] = vsub_inner(v, pairs)
    return Tensor(t.op, lead, tail, **kw)


def vsub_inner(v, pairs):
    if isinstance(v, Tensor):
        return tsubst(v, pairs)
    if isinstance(v, Expr):
        return esubst(v, pairs)
    if is_z3(v):
        return simp(z3.substitute(v, *pairs))
    if isinstance(v, tuple):
        return tuple(vsub_inner(x, pairs) for x in v)
    if isinstance(v, list):
        return [vsub_inner(x, pairs) for x in v]
    if isinstance(v, OShape):
        return OShape(z3.substitute(v.term, *pairs))
    return v


def same_dim(a, b):
    a = simp(a)
    b = simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zi(a).eq(zi(b)) or simp(zi(a) == zi(b)) is True
