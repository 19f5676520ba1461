"""Element semantics of tensor terms and canonical forms of real expressions with finite sums."""
import time
import itertools
from .terms import *


OPQ = set()       # operations whose elements stay opaque (equality by congruence only)
LEAFDEFS = {}     # leaf name -> term whose (detached) value the leaf has


class Long(BaseException):
    pass


UNTIL = [None]


def tick():
    if UNTIL[0] is not None and time.time() > UNTIL[0]:
        raise Long()


def leaf_elem(name, args):
    ivars, t = LEAFDEFS[name]
    n = len(ivars)
    e = elem(t, list(args[n:]))
    return esubst(e, list(zip(ivars, args[:n]))) if n else e


def bidx(t, idx, bmap):
    """indices of a broadcast operand. bmap: None (scalar) or (offset, [bool broadcast])"""
    off, br = bmap
    sub = list(idx[off:])
    return [z3.IntVal(0) if b else i for i, b in zip(sub, br)]


def elem(t, idx):
    """Expr for element idx of tensor t"""
    if isinstance(t, Expr):
        return t
    o, kw = t.op, t.kw
    idx = [zi(i) for i in idx]
    assert len(idx) == t.nidx(), (t.op, len(idx), t.nidx())
    if o in OPQ:
        return Expr('opaque', 'elem', (t,) + tuple(idx))
    if o == 'var':
        return app(kw['name'], kw['params'], idx)
    if o == 'full':
        return kw['value']
    if o == 'detach':
        return det(elem(kw['t'], idx))
    if o == 'bools':
        r = ZERO
        for j, c in enumerate(kw['vals']):
            v = (ONE if c else ZERO) if isinstance(c, bool) else ite(c, ONE, ZERO)
            r = ite(simp(idx[0] == j), v, r) if idx else v
        return r
    if o == 'funv':
        return esubst(kw['body'], [(kw['ivar'], zi(idx[0]))])
    if o == 'funm':
        return esubst(kw['body'], [(v, zi(x)) for v, x in zip(kw['ivars'], idx)])
    if o == 'boolv':
        r = ZERO
        off = 0
        runs = []
        for n, c in kw['parts']:
            runs.append((off, c))
            off = simp(zi(off) + zi(n))
        for st, c in runs:
            v = (ONE if c else ZERO) if isinstance(c, bool) else ite(c, ONE, ZERO)
            r = ite(simp(zi(idx[0]) >= zi(st)), v, r)
        return r
    if o == 'linspace':
        return add(kw['start'], mul(num(idx[0]), sub(kw['end'], kw['start']), inv(sub(num(kw['n']), ONE))))
    if o == 'iota':
        return num(zi(kw['start']) + idx[0])
    if o == 'store':
        conds = []
        j = []
        for d, i in enumerate(idx):
            if d < len(kw['spec']):
                sp = kw['spec'][d]
                if sp[0] == 'i':
                    conds.append(i == zi(sp[1]))
                    continue
                if simp(sp[1]) == 0 and d < len(t.lead) and same_dim(sp[2], t.lead[d]):
                    j.append(i)
                    continue
                conds.append(i >= zi(sp[1]))
                conds.append(i < zi(sp[1]) + zi(sp[2]))
                j.append(z3.simplify(i - zi(sp[1])))
            else:
                j.append(i)
        v = kw['val']
        ve = elem(v, bidx(v, j, kw['vmap']))
        return ite(simp(z3.And(*conds)) if conds else True, ve, elem(kw['t'], idx))
    if o == 'storeseq':
        d = kw['dim']
        k = idx[d]
        v = tsubst(kw['val'], [(kw['ivar'], k)])
        ve = elem(v, bidx(v, idx[:d] + idx[d + 1:], kw['vmap']))
        return ite(simp(z3.And(k >= zi(kw['lo']), k < zi(kw['hi']))), ve, elem(kw['t'], idx))
    if o == 'conv2d':
        return conv_elem(t, idx)
    if o == 'ew':
        f = kw['f']
        xs = []
        for a, bm in zip(kw['args'], kw['maps']):
            xs.append(elem(a, bidx(a, idx, bm)) if isinstance(a, Tensor) else num(a))
        return ewf(f, xs)
    if o == 'cat':
        d = kw['dim']
        k = idx[d]
        off = z3.IntVal(0)
        res = None
        pieces = []
        for p in kw['parts']:
            pieces.append((off, p))
            off = z3.simplify(off + zi(p.lead[d]))
        for off, p in reversed(pieces):
            j = list(idx)
            j[d] = z3.simplify(k - off)
            e = elem(p, j)
            if res is None:
                res = e
            else:
                res = ite(k < off + zi(p.lead[d]), e, res)
        return res
    if o == 'catseq':
        if same_dim(kw['body'].lead[kw['dim']], 1):        # one entry per part: entry k comes from part k
            d = kw['dim']
            return elem(tsubst(kw['body'], [(kw['ivar'], idx[d])]), list(idx[:d]) + [0] + list(idx[d + 1:]))
        return Expr('pick', t, tuple(idx))
    if o == 'slice':
        d = kw['dim']
        j = list(idx)
        j[d] = z3.simplify(zi(kw['start']) + zi(kw['step']) * idx[d])
        return elem(kw['t'], j)
    if o == 'select':
        d = kw['dim']
        j = list(idx[:d]) + [zi(kw['index'])] + list(idx[d:])
        return elem(kw['t'], j)
    if o == 'unsqueeze':
        d = kw['dim']
        return elem(kw['t'], list(idx[:d]) + list(idx[d + 1:]))
    if o == 'view':
        return elem(kw['t'], view_index(t, kw['t'], idx))
    if o == 'perm':
        p = kw['perm']
        j = [None] * len(idx)
        for out_d, in_d in enumerate(p):
            j[in_d] = idx[out_d]
        return elem(kw['t'], j)
    if o == 'sum':
        src = kw['t']
        dims = kw['dims']
        vs = {}
        j = []
        it = iter(idx)
        for d in range(src.nidx()):
            if d in dims:
                if kw.get('keepdim'):
                    next(it)
                v = fresh_bound()
                vs[d] = v
                j.append(v)
            else:
                j.append(next(it))
        e = elem(src, j)
        for d in reversed(sorted(dims)):
            hi = src.lead[d] if d < len(src.lead) else src.tail.numel()
            e = esum(vs[d], hi, e)
        return e
    if o == 'matmul':
        a, b = kw['a'], kw['b']
        k = fresh_bound()
        n = a.lead[-1]
        if len(a.lead) == 1:
            ia = [k]
        else:
            ia = bat(a, idx[:len(idx) - (1 if len(b.lead) == 1 else 2)], 2) + [idx[-1 if len(b.lead) == 1 else -2], k]
        if len(b.lead) == 1:
            ib = [k]
        else:
            ib = bat(b, idx[:len(idx) - (1 if len(a.lead) == 1 else 2)], 2) + [k, idx[-1]]
        return esum(k, n, mul(elem(a, ia), elem(b, ib)))
    if o == 'repeat':
        src = kw['t']
        off = len(idx) - src.nidx()
        j = []
        for d in range(src.nidx()):
            dim = src.lead[d]
            r = kw['reps'][off + d]
            if r == 1:
                j.append(idx[off + d])
            elif dim == 1:
                j.append(z3.IntVal(0))
            else:
                j.append(idx[off + d] % zi(dim))
        return elem(src, j)
    if o == 'sumseq':
        v = fresh_bound()
        return esum(v, kw['n'], esubst(elem(kw['body'], idx), [(kw['ivar'], v)]))
    if o == 'itet':
        return ite(kw['c'], elem(kw['a'], idx), elem(kw['b'], idx))
    if o == 'grad':
        tgt = kw['wrt']
        return ediff(elem(kw['t'], []), tgt.kw['name'], tuple(zi(p) for p in tgt.kw['params']) + tuple(idx))
    if o == 'opaque':
        return Expr('opaque', kw['name'], tuple(kw['args']) + tuple(idx))
    if o == 'gnorm':        # normalisation: sample n of the result is a function of sample n of the input (and of the other arguments)
        return Expr('opaque', 'group_norm', (sample(kw['args'][0], idx[0]),) + tuple(kw['args'][1:]) + tuple(idx[1:]))
    raise Unsupported('elem of ' + o)


def sample(t, n):
    """t[n] with selections moved to the leaves, so that equal samples have equal terms"""
    if t.op == 'slice' and t.kw['dim'] == 0:
        return sample(t.kw['t'], z3.simplify(zi(t.kw['start']) + zi(t.kw['step']) * zi(n)))
    return Tensor('select', t.lead[1:], t.tail, t=t, dim=0, index=simp(n))


def conv_elem(t, idx):
    kw = t.kw
    x, w = kw['x'], kw['w']
    n, oc, y, xx = idx
    kh, kwd = w.lead[2], w.lead[3]
    if not isinstance(kh, int) or not isinstance(kwd, int):
        raise Unsupported('symbolic kernel size')
    c = fresh_bound()
    parts = []
    for i in range(kh):
        for j in range(kwd):
            yy = z3.simplify(y * zi(kw['stride'][0]) + i * zi(kw['dilation'][0]) - zi(kw['padding'][0]))
            xj = z3.simplify(xx * zi(kw['stride'][1]) + j * zi(kw['dilation'][1]) - zi(kw['padding'][1]))
            inside = simp(z3.And(yy >= 0, yy < zi(x.lead[2]), xj >= 0, xj < zi(x.lead[3])))
            parts.append(mul(elem(w, [oc, c, i, j]), ite(inside, elem(x, [n, c, yy, xj]), ZERO)))
    r = esum(c, x.lead[1], add(*parts))
    if 'b' in kw:
        r = add(r, elem(kw['b'], [oc]))
    return r


def has_det(e):
    if not isinstance(e, Expr):
        return isinstance(e, (tuple, list)) and any(has_det(x) for x in e)
    return e.op == 'det' or any(has_det(x) for x in e.args)


def strip_det(e):
    if not isinstance(e, Expr):
        return e
    o, a = e.op, e.args
    if o == 'det':
        return strip_det(a[0])
    if o in ('num', 'int', 'real', 'ind', 'pick', 'opaque'):
        return e
    if o == 'app':
        if a[0] in LEAFDEFS:
            return strip_det(leaf_elem(a[0], a[1]))
        return e
    if o == 'add':
        return add(*[strip_det(x) for x in a])
    if o == 'mul':
        return mul(*[strip_det(x) for x in a])
    if o == 'pow':
        return powi(strip_det(a[0]), a[1])
    if o == 'inv':
        return inv(strip_det(a[0]))
    if o == 'fn':
        return Expr('fn', a[0], strip_det(a[1]), *a[2:])
    if o == 'ite':
        return ite(a[0], strip_det(a[1]), strip_det(a[2]))
    if o == 'sum':
        return esum(a[0], a[1], strip_det(a[2]))
    raise Unsupported('strip_det ' + o)


def simplify_expr(e):
    return strip_det(num(e))


def int_of(e):
    """Expr over integers -> z3 int"""
    if e.op == 'num' and e.args[0].denominator == 1:
        return int(e.args[0])
    if e.op == 'int':
        return e.args[0]
    if e.op in ('add', 'mul'):
        xs = [int_of(x) for x in e.args]
        if any(x is None for x in xs):
            return None
        r = zi(xs[0])
        for x in xs[1:]:
            r = r + zi(x) if e.op == 'add' else r * zi(x)
        return simp(r)
    return None


def bat(x, bidx_, n):
    """batch indices of a matmul operand (broadcast over leading dims)"""
    nb = len(x.lead) - n
    if nb == 0:
        return []
    return list(bidx_[len(bidx_) - nb:])


def view_index(dst, src, idx):
    if dst.tail is not None or src.tail is not None:
        # same trailing structure: [lead..., L] <-> [lead..., tail]
        if dst.tail is not None and src.tail is None and len(src.lead) == len(dst.lead) + 1:
            return idx
        if dst.tail is None and src.tail is not None and len(dst.lead) == len(src.lead) + 1:
            return idx
        if dst.tail is not None and src.tail is not None and len(dst.lead) == len(src.lead):
            return idx
        raise Unsupported('view between opaque shapes')
    if len(dst.lead) == len(src.lead) and all(same_dim(a, b) for a, b in zip(dst.lead, src.lead)):
        return idx
    flat = z3.IntVal(0)
    for d, i in zip(dst.lead, idx):
        flat = flat * zi(d) + i
    flat = z3.simplify(flat, som=True)
    if len(src.lead) == 1:
        return [flat]
    # strip unit dims: match non-unit dims one to one
    sn = [k for k, d in enumerate(src.lead) if not (isinstance(d, int) and d == 1)]
    dn = [k for k, d in enumerate(dst.lead) if not (isinstance(d, int) and d == 1)]
    if len(sn) == len(dn) and all(same_dim(src.lead[a], dst.lead[b]) for a, b in zip(sn, dn)):
        out = [z3.IntVal(0)] * len(src.lead)
        for a, b in zip(sn, dn):
            out[a] = idx[b]
        return out
    out = []
    rest = flat
    for d in reversed(src.lead[1:]):
        out.append(rest % zi(d))
        rest = rest / zi(d)
    out.append(rest)
    return list(reversed(out))


def ewf(f, xs):
    if f == 'add':
        return add(*xs)
    if f == 'sub':
        return sub(xs[0], xs[1])
    if f == 'mul':
        return mul(*xs)
    if f == 'div':
        return div(xs[0], xs[1])
    if f == 'neg':
        return neg(xs[0])
    if isinstance(f, tuple) and f[0] == 'pow':
        return powi(xs[0], f[1])
    if isinstance(f, tuple) and f[0] == 'fn':
        return fn(f[1], xs[0])
    if f == 'id':
        return xs[0]
    if f in ('step', 'ge'):      # 1 if x>=y else 0
        return Expr('fn', 'step', sub(xs[0], xs[1]))
    if f == 'gt':
        return sub(ONE, Expr('fn', 'step', sub(xs[1], xs[0])))
    if f == 'le':
        return Expr('fn', 'step', sub(xs[1], xs[0]))
    if f == 'lt':
        return sub(ONE, Expr('fn', 'step', sub(xs[0], xs[1])))
    if f == 'eq':
        return Expr('fn', 'iszero', sub(xs[0], xs[1]))
    if f == 'ne':
        return sub(ONE, Expr('fn', 'iszero', sub(xs[0], xs[1])))
    if f == 'not':
        return sub(ONE, xs[0])
    if f == 'and':
        return mul(xs[0], xs[1])
    if f == 'or':
        return sub(add(xs[0], xs[1]), mul(xs[0], xs[1]))
    raise Unsupported('elementwise ' + str(f))


DERIV = {}


def dfn(name, x):
    if name == 'nl':
        return fn('dnl', x)
    if name == 'exp':
        return fn('exp', x)
    if name == 'tanh':
        return sub(ONE, powi(fn('tanh', x), 2))
    if name == 'sigmoid':
        s = fn('sigmoid', x)
        return mul(s, sub(ONE, s))
    if name == 'relu':
        return Expr('fn', 'step', num(x))
    if name in ('step', 'iszero'):
        return ZERO
    if name == 'sin':
        return fn('cos', x)
    if name == 'cos':
        return neg(fn('sin', x))
    if name == 'sqrt':
        return div(num(Fraction(1, 2)), fn('sqrt', x))
    if name == 'softplus':
        return fn('sigmoid', x)
    raise Unsupported('derivative of ' + name)


def ediff(e, name, point):
    """d e / d name[point]"""
    tick()
    o, a = e.op, e.args
    if o in ('num', 'int', 'real', 'ind', 'det'):
        return ZERO
    if o == 'pick':
        return ediff_pick(e, name, point)
    if o == 'opaque':
        from .tensor import tdeps
        if name not in tdeps(e):
            return ZERO
        return Expr('opaque', 'd:' + name, (e,) + tuple(point))
    if o == 'app':
        if a[0] != name:
            return ZERO
        r = ONE
        for x, y in zip(a[1], point):
            r = mul(r, ite(simp(x == y), ONE, ZERO))
        return r
    if o == 'add':
        return add(*[ediff(x, name, point) for x in a])
    if o == 'mul':
        out = []
        for i in range(len(a)):
            d = ediff(a[i], name, point)
            if d == ZERO:
                continue
            out.append(mul(d, *[a[j] for j in range(len(a)) if j != i]))
        return add(*out) if out else ZERO
    if o == 'pow':
        d = ediff(a[0], name, point)
        return ZERO if d == ZERO else mul(num(a[1]), powi(a[0], a[1] - 1), d)
    if o == 'inv':
        d = ediff(a[0], name, point)
        return ZERO if d == ZERO else neg(mul(d, inv(powi(a[0], 2))))
    if o == 'fn':
        d = ediff(a[1], name, point)
        return ZERO if d == ZERO else mul(dfn(a[0], a[1]), d)
    if o == 'sum':
        v = fresh_bound()
        b = esubst(a[2], [(a[0], v)])
        d = ediff(b, name, point)
        return ZERO if d == ZERO else esum(v, a[1], d)
    if o == 'ite':
        return ite(a[0], ediff(a[1], name, point), ediff(a[2], name, point))
    raise Unsupported('ediff ' + o)


def ediff_pick(e, name, point):
    from .tensor import tdeps
    if name not in tdeps(e):
        return ZERO
    raise Unsupported('derivative of a symbolic concatenation')


# ------------------------------------------------------------------ canonical polynomials

class Mono(object):
    __slots__ = ('c', 'sums', 'fac')

    def __init__(self, c, sums, fac):
        self.c = c
        self.sums = sums    # tuple of (var, hi)
        self.fac = fac      # tuple of (Expr atom, power)


def zmul_atoms(t, acc):
    t = z3.simplify(t, som=True)
    return t


def int_poly(t):
    """z3 int term -> list of (coef, [(atomExpr,pow)])"""
    t = z3.simplify(t, som=True)
    if z3.is_int_value(t):
        return [(Fraction(t.as_long()), [])]
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        out = []
        for c in t.children():
            out += int_poly(c)
        return out
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        out = int_poly(ch[0])
        for c in ch[1:]:
            out += [(-q, f) for q, f in int_poly(c)]
        return out
    if k == z3.Z3_OP_UMINUS:
        return [(-q, f) for q, f in int_poly(t.arg(0))]
    if k == z3.Z3_OP_MUL:
        out = [(Fraction(1), [])]
        for c in t.children():
            p = int_poly(c)
            out = [(q1 * q2, f1 + f2) for q1, f1 in out for q2, f2 in p]
        return out
    if k == z3.Z3_OP_ITE:
        c = t.arg(0)
        a = int_poly(t.arg(1))
        b = int_poly(t.arg(2))
        i = Expr('ind', c)
        return [(q, f + [(i, 1)]) for q, f in a] + [(q, f) for q, f in b] + [(-q, f + [(i, 1)]) for q, f in b]
    return [(Fraction(1), [(Expr('int', t), 1)])]


def subst_fac(fac, pairs):
    out = []
    for a, p in fac:
        out.append((esubst_ind(a, pairs), p))
    return out


def esubst_ind(a, pairs):
    if a.op == 'ind':
        return Expr('ind', z3.substitute(a.args[0], *pairs))
    return esubst(a, pairs)


def depends(a, var):
    """does Expr a mention z3 const var"""
    name = var.decl().name()
    return name in a.key()


def mul_mono(m1, m2):
    tick()
    sums = list(m1.sums)
    s2 = list(m2.sums)
    f2 = list(m2.fac)
    names = set(v.decl().name() for v, h in sums)
    if s2:
        pairs = []
        ns = []
        for v, h in s2:
            if v.decl().name() in names:
                nv = fresh_bound()
                pairs.append((v, nv))
                ns.append((nv, h))
            else:
                ns.append((v, h))
        if pairs:
            f2 = subst_fac(f2, pairs)
            ns = [(v, z3.substitute(h, *pairs)) for v, h in ns]
        s2 = ns
    fac = merge_fac(list(m1.fac) + f2)
    return Mono(m1.c * m2.c, tuple(sums + s2), fac)


def merge_fac(fs):
    d = {}
    order = []
    for a, p in fs:
        k = a.key()
        if k in d:
            d[k][1] += p
        else:
            d[k] = [a, p]
            order.append(k)
    out = []
    for k in order:
        a, p = d[k]
        if p == 0:
            continue
        if a.op == 'ind' and p > 1:
            p = 1
        out.append((a, p))
    return tuple(out)


class TooBig(Unsupported):
    pass


LIMIT = 4000


def to_poly(e, ctx):
    tick()
    o, a = e.op, e.args
    if o == 'num':
        return [Mono(a[0], (), ())] if a[0] != 0 else []
    if o == 'int':
        return [Mono(q, (), merge_fac(f)) for q, f in int_poly(a[0])]
    if o == 'real':
        return [Mono(Fraction(1), (), ((Expr('real', z3.simplify(a[0])), 1),))]
    if o == 'det':
        return to_poly(a[0], ctx)
    if o == 'app':
        if a[0] in LEAFDEFS:
            return to_poly(leaf_elem(a[0], a[1]), ctx)
        args = tuple(ctx.canon(x) for x in a[1])
        return [Mono(Fraction(1), (), ((Expr('app', a[0], args), 1),))]
    if o == 'ind':
        return ind_poly(a[0], ctx)
    if o == 'add':
        out = []
        for x in a:
            out += to_poly(x, ctx)
            if len(out) > LIMIT:
                raise TooBig('polynomial too large')
        return collect(out, ctx)
    if o == 'mul':
        out = [Mono(Fraction(1), (), ())]
        for x in a:
            p = to_poly(x, ctx)
            out = [mul_mono(m1, m2) for m1 in out for m2 in p]
            if len(out) > LIMIT:
                raise TooBig('polynomial too large')
            if not out:
                return []
        return collect(out, ctx)
    if o == 'pow':
        p = to_poly(a[0], ctx)
        if len(p) == 1 and not p[0].sums:
            return [Mono(p[0].c ** a[1], (), merge_fac([(x, q * a[1]) for x, q in p[0].fac]))]
        out = [Mono(Fraction(1), (), ())]
        for _ in range(a[1]):
            out = [mul_mono(m1, m2) for m1 in out for m2 in p]
        return collect(out, ctx)
    if o == 'inv':
        p = to_poly(a[0], ctx)
        if len(p) == 1 and not p[0].sums and not any(x.op == 'ind' for x, _ in p[0].fac):
            return [Mono(1 / p[0].c, (), merge_fac([(x, -q) for x, q in p[0].fac]))]
        # case distinction inside the denominator:  1/ite(c,x,y) = ite(c,1/x,1/y)
        if a[0].op == 'ite':
            return to_poly(ite(a[0].args[0], inv(a[0].args[1]), inv(a[0].args[2])), ctx)
        return [Mono(Fraction(1), (), ((Expr('inv', from_poly(p)), 1),))]
    if o == 'fn':
        p = to_poly(a[1], ctx)
        arg = from_poly(p)
        if a[0] == 'step' and arg.op == 'num':
            return to_poly(ONE if arg.args[0] >= 0 else ZERO, ctx)
        return [Mono(Fraction(1), (), ((Expr('fn', a[0], arg), 1),))]
    if o == 'ite':
        c = a[0]
        r = ctx.decide(c)
        if r is True:
            return to_poly(a[1], ctx)
        if r is False:
            return to_poly(a[2], ctx)
        pi = ind_poly(c, ctx)
        with ctx.assume(c):
            pa = to_poly(a[1], ctx)
        with ctx.assume(z3.Not(c)):
            pb = to_poly(a[2], ctx)
        out = [mul_mono(m1, m2) for m1 in pi for m2 in pa] + list(pb) + \
              [Mono(-m.c, m.sums, m.fac) for m in [mul_mono(m1, m2) for m1 in pi for m2 in pb]]
        return collect(out, ctx)
    if o == 'sum':
        v, hi, body = a
        hi = ctx.canon(hi)
        nv = fresh_bound()
        body = esubst(body, [(v, nv)])
        with ctx.assume(nv >= 0, nv < hi):
            p = to_poly(body, ctx)
        out = []
        for m in p:
            out += sum_mono(nv, hi, m, ctx)
        return collect(out, ctx)
    if o == 'pick':
        return to_poly(resolve_pick(e, ctx), ctx)
    if o == 'opaque':
        return [Mono(Fraction(1), (), ((e, 1),))]
    raise Unsupported('to_poly ' + o)


def ind_poly(c, ctx):
    r = ctx.decide(c)
    if r is True:
        return [Mono(Fraction(1), (), ())]
    if r is False:
        return []
    c = z3.simplify(c)
    # conjunctions become products so that equalities can be eliminated one by one
    if z3.is_and(c):
        out = [Mono(Fraction(1), (), ())]
        for x in c.children():
            p = ind_poly(x, ctx)
            out = [mul_mono(m1, m2) for m1 in out for m2 in p]
        return out
    if z3.is_not(c):
        p = ind_poly(c.arg(0), ctx)
        return [Mono(Fraction(1), (), ())] + [Mono(-m.c, m.sums, m.fac) for m in p]
    return [Mono(Fraction(1), (), ((Expr('ind', c), 1),))]


def solve_for(c, v):
    """c is an equality over ints linear in v with coefficient +-1: return t with  c <=> v == t, else None"""
    if not (z3.is_eq(c) and is_zint(c.arg(0))):
        return None
    d = z3.simplify(c.arg(0) - c.arg(1), som=True)
    d1 = z3.simplify(z3.substitute(d, (v, v + 1)) - d, som=True)
    if not z3.is_int_value(d1):
        return None
    q = d1.as_long()
    if q not in (1, -1):
        return None
    d0 = z3.simplify(z3.substitute(d, (v, z3.IntVal(0))), som=True)
    t = z3.simplify(-d0 if q == 1 else d0, som=True)
    if any(x.eq(v) for x in free_consts(t)):
        return None
    return t


def sum_mono(v, hi, m, ctx):
    tick()
    # delta elimination
    for i, (a, p) in enumerate(m.fac):
        if a.op == 'ind' and depends(a, v):
            t = solve_for(a.args[0], v)
            if t is not None:
                rest = [x for j, x in enumerate(m.fac) if j != i]
                pairs = [(v, t)]
                rest = subst_fac(rest, pairs)
                sums = tuple((w, z3.substitute(h, *pairs)) for w, h in m.sums)
                base = from_mono(Mono(m.c, sums, merge_fac(rest)))
                cond = z3.And(t >= 0, t < hi)
                return to_poly(mul(Expr('ite', cond, ONE, ZERO), base), ctx)
    if not any(depends(a, v) for a, p in m.fac) and not any(any(x.eq(v) for x in free_consts(h)) for w, h in m.sums):
        # sum of a constant: multiply by max(hi,0); sizes are nonnegative
        return [mul_mono(m, mm) for mm in to_poly(num(hi), ctx)]
    return [Mono(m.c, ((v, hi),) + tuple(m.sums), m.fac)]


def from_mono(m):
    e = mul(num(m.c), *[powi(a, p) if a.op != 'ind' else a for a, p in m.fac])
    for v, h in reversed(m.sums):
        e = Expr('sum', v, zi(h), e)
    return e


def from_poly(p):
    ms = [(mono_key(m), m) for m in p]
    ms.sort(key=lambda x: x[0])
    out = []
    for k, m in ms:
        out.append(canon_mono_expr(m))
    return add(*out) if out else ZERO


def canon_mono_expr(m):
    """monomial with canonically named bound variables"""
    perm, mm = best_perm(m)
    return from_mono(mm)


def rename(m, order):
    pairs = []
    ns = []
    for k, (v, h) in enumerate(order):
        pairs.append((v, z3.Int('b!%d' % k)))
    for v, h in order:
        ns.append((dict((a.decl().name(), b) for a, b in pairs)[v.decl().name()], z3.simplify(z3.substitute(zi(h), *pairs), som=True)))
    fac = []
    for a, p in m.fac:
        fac.append((norm_atom(esubst_ind(a, pairs)), p))
    fac.sort(key=lambda x: (x[0].key(), x[1]))
    return Mono(m.c, tuple(ns), tuple(fac))


def norm_atom(a):
    if a.op == 'app':
        return Expr('app', a.args[0], tuple(z3.simplify(x, som=True) for x in a.args[1]))
    if a.op == 'int':
        return Expr('int', z3.simplify(a.args[0], som=True))
    if a.op == 'ind':
        return Expr('ind', z3.simplify(a.args[0]))
    return a


def mkey0(m):
    return akey([h for v, h in m.sums]) + '|' + ' '.join('%s^%d' % (a.key(), p) for a, p in m.fac)


MARK, OTHER = z3.Int('b!@'), z3.Int('b!*')


def signature(m, v):
    """what does not depend on the names of the bound variables"""
    pairs = [(x, MARK if x.eq(v) else OTHER) for x, _ in m.sums]
    h = [hh for x, hh in m.sums if x.eq(v)][0]
    return (z3.simplify(z3.substitute(zi(h), *pairs)).sexpr(), tuple(sorted('%s^%d' % (norm_atom(esubst_ind(a, pairs)).key(), p) for a, p in m.fac)))


def perms(m):
    """orders of the sums to choose from: sorted by signature, ties in every order; then (only if none of these is possible) all"""
    if len(m.sums) > 1:
        sg = sorted(((signature(m, v), (v, h)) for v, h in m.sums), key=lambda x: x[0])
        groups = [[x[1] for x in g] for _, g in itertools.groupby(sg, key=lambda x: x[0])]
        for c in itertools.product(*[list(itertools.permutations(g)) for g in groups]):
            yield [x for g in c for x in g]
        yield None
    for p in itertools.permutations(m.sums):
        yield p


def best_perm(m):
    tick()
    n = len(m.sums)
    if n == 0:
        mm = rename(m, [])
        return (), mm
    if n > 5:
        raise TooBig('too many nested sums')
    best = None
    for perm in perms(m):
        if best is not None and perm is None:
            break
        if perm is None:
            continue
        mm = rename(m, perm)
        # an outer bound must not depend on an inner variable: bounds here are sizes, never bound variables, or ragged (checked)
        ok = True
        names = []
        for v, h in mm.sums:
            for x in free_consts(zi(h)):
                nm = x.decl().name()
                if nm.startswith('b!') and nm not in names:
                    ok = False
            names.append(v.decl().name())
        if not ok:
            continue
        k = mkey0(mm)
        if best is None or k < best[0]:
            best = (k, mm)
    if best is None:
        raise Unsupported('cyclic sum bounds')
    return best


def mono_key(m):
    return best_perm(m)[0] if m.sums else mkey0(rename(m, []))


def collect(ms, ctx):
    d = {}
    for m in ms:
        if m.c == 0:
            continue
        k = mono_key(m)
        if k in d:
            d[k] = Mono(d[k].c + m.c, d[k].sums, d[k].fac)
        else:
            d[k] = m
    return [m for m in d.values() if m.c != 0]


def resolve_pick(e, ctx):
    """element of a symbolic concatenation: find the piece containing the index"""
    tick()
    t, idx = e.args
    kw = t.kw
    d = kw['dim']
    k = idx[d]
    n = zi(kw['n'])
    iv = kw['ivar']
    body = kw['body']
    off = PS.get(iv, zi(body.lead[d]))
    tried = set()
    cands = ctx.cands(k)
    cands = cands + [z3.simplify(c - q) for q in (1, 2) for c in cands]
    for c in cands:
        s = c.sexpr()
        if s in tried:
            continue
        tried.add(s)
        o = off(c)
        ln = zi(simp(z3.substitute(zi(body.lead[d]), (iv, c))))
        if ctx.decide(z3.And(c >= 0, c < n, o <= k, k < o + ln)) is True:
            j = list(idx)
            j[d] = z3.simplify(k - o, som=True)
            return elem(tsubst(body, [(iv, c)]), j)
    return Expr('opaque', 'pick', (t,) + tuple(ctx.canon(x) for x in idx))


def prove_eq(e1, e2, ctx, depth=0, text=True):
    """'proved' | 'refuted' | 'unknown' ; with a textual difference"""
    if depth == 0:
        e1, e2 = [strip_det(num(e)) if has_det(num(e)) else num(e) for e in (e1, e2)]
    try:
        p = to_poly(sub(num(e1), num(e2)), ctx)
    except TooBig as x:
        return 'unknown', str(x)
    if not p:
        return 'proved', ''
    # case split on a condition free of bound variables
    for m in p:
        for a, q in m.fac:
            if a.op == 'ind' and depth < 6:
                if any('!' in v.decl().name() and v.decl().name().split('!')[0] in ('k', 'b') for v in free_consts(a.args[0])):
                    continue
                for c in (a.args[0], z3.Not(a.args[0])):
                    with ctx.assume(c):
                        if ctx.infeasible():
                            continue
                        r, msg = prove_eq(e1, e2, ctx, depth + 1, text)
                    if r != 'proved':
                        return r, msg
                return 'proved', ''
    p = merge_equal_atoms(p, ctx)
    if not p:
        return 'proved', ''
    q = [m for m in p if not empty_sum(m, ctx)]
    if len(q) < len(p):
        p = q
        if not p:
            return 'proved', ''
    # transcendental / rational remainder: ask z3
    r = z3_zero(p, ctx)
    if r == 'proved':
        return r, ''
    weak = any(a.op in ('opaque', 'ind', 'inv') for m in p for a, q in m.fac)
    return ('unknown' if (weak or r == 'unknown') else 'refuted'), show(p) if text else ''


def empty_sum(m, ctx):
    for v, h in m.sums:
        if not is_z3(h) or any(x.decl().name().split('!')[0] in ('k', 'b') for x in free_consts(h)):
            continue
        if ctx.decide(h <= 0) is True:
            return True
    return False


def show(p):
    return 'difference: ' + from_poly(p).key()[:1500]


def merge_equal_atoms(p, ctx):
    """identify element applications whose indices are provably equal (outside sums)"""
    tick()
    atoms = {}
    for m in p:
        for a, q in m.fac:
            if a.op == 'app':
                atoms.setdefault(a.args[0], {})[a.key()] = a
    rep = {}
    for nm, d in atoms.items():
        ks = sorted(d)
        for i in range(len(ks)):
            for j in range(i):
                if ks[j] in rep:
                    continue
                x, y = d[ks[i]], d[ks[j]]
                if len(x.args[1]) == len(y.args[1]) and ctx.decide(z3.And(*[u == v for u, v in zip(x.args[1], y.args[1])])) is True:
                    rep[ks[i]] = y
                    break
    if not rep:
        return p
    out = []
    for m in p:
        out.append(Mono(m.c, m.sums, merge_fac([(rep.get(a.key(), a), q) for a, q in m.fac])))
    return collect(out, ctx)


E_ = z3.Function('E', z3.RealSort(), z3.RealSort())


def to_z3(e, memo, side):
    o, a = e.op, e.args
    k = e.key()
    if k in memo:
        return memo[k]
    if o == 'num':
        r = z3.RealVal(str(a[0]))
    elif o == 'int':
        r = z3.ToReal(a[0])
    elif o == 'real':
        r = a[0]
    elif o == 'add':
        r = z3.Sum([to_z3(x, memo, side) for x in a])
    elif o == 'mul':
        r = to_z3(a[0], memo, side)
        for x in a[1:]:
            r = r * to_z3(x, memo, side)
    elif o == 'pow':
        b = to_z3(a[0], memo, side)
        r = b
        for _ in range(a[1] - 1):
            r = r * b
    elif o == 'inv':
        b = to_z3(a[0], memo, side)
        r = z3.Real('inv!%d' % len(memo))
        side.append(r * b == 1)
        side.append(('nz', b))
    elif o == 'fn' and a[0] == 'exp' and k in memo.get('exp', {}):
        r = memo['exp'][k]
    elif o == 'fn' and a[0] == 'step':
        b = to_z3(a[1], memo, side)
        r = z3.If(b >= 0, z3.RealVal(1), z3.RealVal(0))
    elif o == 'fn' and a[0] == 'relu':
        b = to_z3(a[1], memo, side)
        r = z3.If(b >= 0, b, z3.RealVal(0))
    elif o == 'ind':
        r = z3.If(a[0], z3.RealVal(1), z3.RealVal(0))
    elif o == 'ite':
        r = z3.If(a[0], to_z3(a[1], memo, side), to_z3(a[2], memo, side))
    else:
        r = z3.Real('atom!%d' % len(memo))
    memo[k] = r
    return r


class PlainCtx(object):
    """context without facts"""

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        return True if z3.is_true(c) else False if z3.is_false(c) else None

    def canon(self, t):
        return z3.simplify(t, som=True)

    def cands(self, k):
        return []

    def assume(self, *fs):
        import contextlib
        return contextlib.nullcontext()


def expify(e):
    """tanh, sigmoid and softplus' through exp"""
    if not isinstance(e, Expr):
        return e
    o, a = e.op, e.args
    if o == 'fn':
        x = expify(a[1])
        if a[0] == 'tanh':
            E = fn('exp', mul(2, x))
            return mul(sub(E, ONE), inv(add(E, ONE)))
        if a[0] == 'sigmoid':
            E = fn('exp', x)
            return mul(E, inv(add(E, ONE)))
        return Expr('fn', a[0], x, *a[2:])
    if o == 'add':
        return add(*[expify(x) for x in a])
    if o == 'mul':
        return mul(*[expify(x) for x in a])
    if o == 'pow':
        return powi(expify(a[0]), a[1])
    if o == 'inv':
        return inv(expify(a[0]))
    if o == 'ite':
        return ite(a[0], expify(a[1]), expify(a[2]))
    return e


def exps(e, acc):
    if not isinstance(e, Expr):
        return acc
    if e.op == 'fn' and e.args[0] == 'exp':
        acc[e.key()] = e
    if e.op in ('add', 'mul', 'pow', 'inv', 'ite', 'fn'):
        for x in e.args:
            exps(x, acc)
    return acc


def exp_vars(es):
    """exp(q*u) for rational q and common u become powers of one positive variable"""
    groups = {}
    for k, e in es.items():
        p = to_poly(e.args[1], PlainCtx())
        if not p:
            groups.setdefault('0', []).append((k, Fraction(0)))
            continue
        p = sorted(p, key=mono_key)
        lead = p[0].c
        g = from_poly([Mono(m.c / lead, m.sums, m.fac) for m in p]).key()
        groups.setdefault(g, []).append((k, lead))
    out, side = {}, []
    import math
    for n, (g, l) in enumerate(sorted(groups.items())):
        if g == '0':
            for k, q in l:
                out[k] = z3.RealVal(1)
            continue
        den = 1
        for k, q in l:
            den = den * q.denominator // math.gcd(den, q.denominator)
        gg = 0
        for k, q in l:
            gg = math.gcd(gg, int(q * den))
        E = z3.Real('E!%d' % n)
        F = z3.Real('F!%d' % n)
        side.append(E > 0)
        if any(q < 0 for k, q in l):
            side += [F > 0, E * F == 1]
        for k, q in l:
            c = int(q * den) // gg
            b = E if c > 0 else F
            r = b
            for _ in range(abs(c) - 1):
                r = r * b
            out[k] = r
    return out, side


def z3_zero(p, ctx):
    """is the polynomial identically zero? decided by z3 (nonlinear reals); exp is a positive function with exp(u)exp(-u)=1"""
    tick()
    memo = {}
    side = []
    terms = []
    pure = True
    es = [expify(from_mono(m)) for m in p]
    acc = {}
    for e in es:
        exps(e, acc)
    if acc:
        memo['exp'], side = exp_vars(acc)
    for m, e in zip(p, es):
        terms.append(to_z3(e, memo, side))
        if m.sums:
            pure = False
    s = z3.Solver()
    s.set('timeout', 8000)
    for f in ctx.facts():
        s.add(f)
    for x in side:
        if isinstance(x, tuple):
            if x[0] == 'nz':
                s.add(x[1] != 0)
        else:
            s.add(x)
    s.add(z3.Sum(terms) != 0)
    ctx.count_query()
    r = s.check()
    if r == z3.unsat:
        # denominators were assumed non-zero: prove it
        s2 = z3.Solver()
        s2.set('timeout', 8000)
        for f in ctx.facts():
            s2.add(f)
        nz = []
        for x in side:
            if isinstance(x, tuple):
                if x[0] == 'nz':
                    nz.append(x[1] == 0)
            else:
                s2.add(x)
        if nz:
            s2.add(z3.Or(*nz))
            if s2.check() != z3.unsat:
                return 'unknown'
        return 'proved'
    if r == z3.sat:
        return 'refuted'
    return 'unknown'
