"""Assumed contracts of the torch / numpy tensor operations, over mathematical reals.

A tensor object is a box (PTensor) around an immutable term; flags['base'] names the storage it shares with other boxes
(views, detach, .data, numpy()).  Writing in place into shared storage is outside the subset (Unsupported)."""
from .objs import *
from .terms import *
from . import sigma


def X():
    from . import ext
    return ext


def I_():
    from . import interp
    return interp


# ------------------------------------------------------------------ helpers

def term(ex, v):
    """PTensor | number -> Tensor term or Expr"""
    v = ex.force(v)
    if isinstance(v, PTensor):
        return v.term
    if isinstance(v, Tensor):
        return v
    if isinstance(v, IntVec):
        return X().intvec_tensor(ex, v).term
    if isinstance(v, float) and (v != v or abs(v) == float('inf')):
        raise Unsupported('infinite value in a tensor')
    return num(v)


def mk(t, **flags):
    return PTensor(t, **flags)


def root(o):
    return o.flags.get('base', o.oid)


def viewof(o, t, **fl):
    f = dict(base=root(o))
    if o.flags.get('np'):
        f['np'] = True
    f.update(fl)
    return PTensor(t, **f)


def tdeps(t, acc=None, seen=None):
    """names of the variables a term depends on, differentiably"""
    acc, seen = (set() if acc is None else acc), (set() if seen is None else seen)
    if isinstance(t, (Tensor, Expr)):
        if id(t) in seen:
            return acc
        seen.add(id(t))
    if isinstance(t, Tensor):
        if t.op == 'detach':
            return acc
        if t.op == 'var':
            acc.add(t.kw['name'])
        for v in t.kw.values():
            tdeps(v, acc, seen)
    elif isinstance(t, Expr):
        if t.op == 'det':
            return acc
        if t.op == 'app':
            acc.add(t.args[0])
        for v in t.args:
            tdeps(v, acc, seen)
    elif isinstance(t, (tuple, list)):
        for v in t:
            tdeps(v, acc, seen)
    return acc


def vars_of(t, acc=None, seen=None):
    """names of all variables a term depends on (also where no gradient passes)"""
    acc, seen = (set() if acc is None else acc), (set() if seen is None else seen)
    if isinstance(t, (Tensor, Expr)):
        if id(t) in seen:
            return acc
        seen.add(id(t))
    if isinstance(t, Tensor):
        if t.op == 'var':
            acc.add(t.kw['name'])
            if t.kw['name'] in sigma.LEAFDEFS:
                vars_of(sigma.LEAFDEFS[t.kw['name']][1], acc, seen)
        for v in t.kw.values():
            vars_of(v, acc, seen)
    elif isinstance(t, Expr):
        if t.op == 'app':
            acc.add(t.args[0])
            if t.args[0] in sigma.LEAFDEFS:
                vars_of(sigma.LEAFDEFS[t.args[0]][1], acc, seen)
        for v in t.args:
            vars_of(v, acc, seen)
    elif isinstance(t, (tuple, list)):
        for v in t:
            vars_of(v, acc, seen)
    return acc


def has_op(t, ops, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, Tensor):
        if id(t) in seen:
            return False
        seen.add(id(t))
        return t.op in ops or any(has_op(v, ops, seen) for v in t.kw.values())
    if isinstance(t, (tuple, list)):
        return any(has_op(v, ops, seen) for v in t)
    return False


def needs_grad(ex, o):
    if 'requires_grad' in o.flags and o.term.op == 'var':
        return o.flags['requires_grad']
    if o.flags.get('requires_grad') is False:
        return False
    return bool(tdeps(o.term) & ex.grad_names)


def detach(t):
    if t.op in ('detach', 'full'):
        return t
    return Tensor('detach', t.lead, t.tail, t=t)


def make_leaf(ex, o, rg, param=False):
    """a new leaf (Parameter) with the value of o"""
    t = o.term
    rg = ex.truth(rg)
    nm = ex.fresh_name('leaf')
    v = tvar(nm, ex.loopidx, t.lead, t.tail)
    sigma.LEAFDEFS[nm] = (ex.loopidx, detach(t))
    if rg:
        ex.grad_names = ex.grad_names | {nm}
    n = PTensor(v, requires_grad=rg, base=root(o))
    if root(o) == o.oid or o.flags.get('whole'):
        n.flags = dict(n.flags, whole=True)
    if param:
        n.flags = dict(n.flags, param=True)
    return n


def set_requires_grad(ex, o, rg):
    rg = ex.truth(rg)
    fl = dict(o.flags)
    fl['requires_grad'] = rg
    if not rg:
        if o.term.op == 'var':
            ex.grad_names = ex.grad_names - {o.term.kw['name']}
        elif tdeps(o.term) & ex.grad_names:
            raise PyRaise(ExcVal('RuntimeError', ('you can only change requires_grad flags of leaf variables',)))
        o.flags = fl
        return
    if o.term.op != 'var':
        if tdeps(o.term) & ex.grad_names:
            o.flags = fl
            return
        nm = ex.fresh_name('leaf')
        sigma.LEAFDEFS[nm] = (ex.loopidx, detach(o.term))
        o.term = tvar(nm, ex.loopidx, o.term.lead, o.term.tail)
    ex.grad_names = ex.grad_names | {o.term.kw['name']}
    o.flags = fl


# ------------------------------------------------------------------ shapes

def rterr(msg):
    raise PyRaise(ExcVal('RuntimeError', (msg,)))


def dim_eq(ex, a, b):
    """branching equality of two sizes"""
    if same_dim(a, b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    return ex.branch(simp(zi(a) == zi(b)))


def bcast(ex, ts):
    """broadcast shape of the tensor terms and the index maps"""
    tens = [t for t in ts if isinstance(t, Tensor)]
    if any(t.tail is not None for t in tens):
        ref = [t for t in tens if t.tail is not None][0]
        maps = []
        for t in ts:
            if not isinstance(t, Tensor):
                maps.append(None)
                continue
            if t.tail is None:
                if len(t.lead) == 0 or (len(t.lead) == 1 and t.lead[0] == 1 and len(ref.lead) >= 1):
                    maps.append((ref.nidx() - len(t.lead), [True] * len(t.lead)))
                    continue
                raise Unsupported('broadcast against an opaque shape')
            if len(t.lead) != len(ref.lead) or not t.tail.term.eq(ref.tail.term):
                if ex.ctx.decide(t.tail.term == ref.tail.term) is not True:
                    raise Unsupported('broadcast of opaque shapes')
            br = []
            for a, b in zip(t.lead, ref.lead):
                if not dim_eq(ex, a, b):
                    raise Unsupported('broadcast of leading dims before an opaque tail')
                br.append(False)
            maps.append((0, br + [False]))
        return list(ref.lead), ref.tail, maps
    n = max([len(t.lead) for t in tens] + [0])
    lead = [1] * n
    for t in tens:
        off = n - len(t.lead)
        for k, d in enumerate(t.lead):
            c = lead[off + k]
            if same_dim(c, d) or d == 1:
                continue
            if c == 1:
                lead[off + k] = d
                continue
            if isinstance(c, int) and isinstance(d, int):
                rterr('The size of tensor a must match the size of tensor b')
            if ex.branch(simp(zi(c) == zi(d))):
                # prefer a concrete size
                if isinstance(d, int):
                    lead[off + k] = d
                continue
            if ex.branch(simp(zi(c) == 1)):
                lead[off + k] = d
                continue
            if ex.branch(simp(zi(d) == 1)):
                continue
            rterr('The size of tensor a must match the size of tensor b')
    maps = []
    for t in ts:
        if not isinstance(t, Tensor):
            maps.append(None)
            continue
        off = n - len(t.lead)
        br = []
        for k, d in enumerate(t.lead):
            if same_dim(d, lead[off + k]):
                br.append(False)
            elif d == 1:
                br.append(True)
            else:
                r = ex.ctx.decide(zi(d) == zi(lead[off + k]))
                if r is True:
                    br.append(False)
                elif ex.ctx.decide(zi(d) == 1) is True:
                    br.append(True)
                else:
                    raise Unsupported('broadcast')
        maps.append((off, br))
    return lead, None, maps


def ew(ex, f, ts, isbool=False):
    lead, tail, maps = bcast(ex, ts)
    kw = dict(f=f, args=tuple(ts), maps=tuple(maps))
    if isbool:
        kw['isbool'] = True
    return Tensor('ew', lead, tail, **kw)


OPN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div'}


def isnp(*os):
    return any(isinstance(o, PTensor) and o.flags.get('np') for o in os)


def out(ex, t, *srcs):
    fl = {}
    if isnp(*srcs):
        fl['np'] = True
    return PTensor(t, **fl)


def tensor_binop(ex, op, a, b):
    I = I_()
    if isinstance(a, (str, SStr, PDict, PInst)) or isinstance(b, (str, SStr, PDict, PInst)):
        raise PyRaise(ExcVal('TypeError', ('unsupported operand',)))
    if isinstance(a, PList):
        a = from_list(ex, a.items()) if isnp(b) and a.concrete() else _u('tensor with list')
    if isinstance(b, PList):
        b = from_list(ex, b.items()) if isnp(a) and b.concrete() else _u('tensor with list')
    if op == 'MatMult':
        return matmul(ex, a, b)
    if op == 'Pow':
        e = ex.force(b)
        if isinstance(e, PTensor):
            e = item(ex, e)
        if isinstance(e, Expr) and e.op == 'num':
            e = e.args[0]
        if isinstance(e, (int, Fraction)) and e == int(e) and isinstance(a, PTensor):
            return out(ex, ew(ex, ('pow', int(e)), [a.term]), a)
        if isinstance(e, Fraction) and e == Fraction(1, 2) and isinstance(a, PTensor):
            return out(ex, ew(ex, ('fn', 'sqrt'), [a.term]), a)
        raise Unsupported('tensor power')
    if op in ('BitAnd', 'BitOr'):
        return out(ex, ew(ex, 'and' if op == 'BitAnd' else 'or', [term(ex, a), term(ex, b)], isbool=True), a, b)
    if op == 'FloorDiv' or op == 'Mod':
        raise Unsupported('tensor ' + op)
    if op not in OPN:
        raise Unsupported('tensor operator ' + op)
    ts = [term(ex, a), term(ex, b)]
    r = ew(ex, OPN[op], ts)
    fl = {}
    if all((x.flags.get('int') if isinstance(x, PTensor) else X().is_int(x)) for x in (a, b)) and op != 'Div':
        fl['int'] = True
    o = out(ex, r, a, b)
    o.flags.update(fl)
    return o


def tensor_compare(ex, op, a, b):
    ts = [term(ex, a), term(ex, b)]
    f = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge', 'Eq': 'eq', 'NotEq': 'ne'}[op]
    r = ew(ex, f, ts, isbool=True)
    o = out(ex, r, a, b)
    if not r.lead and r.tail is None or all(d == 1 for d in r.lead) and r.tail is None:
        xs = [sigma.elem(t, [0] * t.nidx()) if isinstance(t, Tensor) else t for t in ts]
        zs = [X().expr_to_z3(sigma.simplify_expr(x)) for x in xs]
        if all(z is not None for z in zs):
            c = simp(X().CMP[op](zs[0], zs[1]))
            o.flags['cond'] = c
    return o


def unary(ex, f, o):
    if f == 'neg':
        return out(ex, ew(ex, 'neg', [o.term]), o)
    return out(ex, ew(ex, ('fn', f), [o.term]), o)


# ------------------------------------------------------------------ construction

def shape_arg(ex, a):
    """size given as ints, a tuple/list or a torch.Size -> (lead, tail)"""
    a = [ex.force(x) for x in a]
    if len(a) == 1:
        v = a[0]
        if isinstance(v, ShapeVal):
            return list(v.lead), v.tail
        if isinstance(v, tuple):
            return [dimval(ex, x) for x in v], None
        if isinstance(v, PList):
            if not v.concrete():
                raise Unsupported('shape of symbolic rank')
            return [dimval(ex, x) for x in v.items()], None
        if isinstance(v, IntVec):
            return list(v.vals), None
    if len(a) > 1 and isinstance(a[-1], ShapeVal):
        return [dimval(ex, x) for x in a[:-1]] + list(a[-1].lead), a[-1].tail
    return [dimval(ex, x) for x in a], None


def dimval(ex, v):
    v = X().as_index(ex.force(v))
    if isinstance(v, bool) or not X().is_int(v):
        if isinstance(v, PTensor):
            v = item(ex, v)
            if X().is_int(v):
                return v
            raise Unsupported('tensor as size')
        if isinstance(v, (Fraction, str, float)) or v is None:
            raise PyRaise(ExcVal('TypeError', ('size must be int',)))
        raise Unsupported('size %r' % (v,))
    if isinstance(v, int):
        if v < 0 and v != -1:
            rterr('negative dimension')
        return v
    return v


def nonneg(ex, lead):
    for d in lead:
        if isinstance(d, int):
            if d < 0:
                rterr('negative dimension')
        elif ex.ctx.decide(zi(d) >= 0) is not True:
            if not ex.branch(simp(zi(d) >= 0)):
                rterr('negative dimension')


def rgflag(ex, o, k):
    if k.get('requires_grad') is not None and ex.truth(k['requires_grad']):
        set_requires_grad(ex, o, True)
    return o


def h_full(val):
    def f(ex, a, k):
        if 'size' in k:
            a = [k['size']] + list(a)
        lead, tail = shape_arg(ex, a)
        nonneg(ex, lead)
        return rgflag(ex, PTensor(tfull(val, lead, tail)), k)
    return f


def h_full_like(val):
    def f(ex, a, k):
        o = ex.force(a[0] if a else k['input'])
        if not isinstance(o, PTensor):
            raise PyRaise(ExcVal('TypeError', ('not a tensor',)))
        return rgflag(ex, PTensor(tfull(val, o.term.lead, o.term.tail)), k)
    return f


def drawn(ex, t):
    ex.draws.append(t)
    return t


def h_rand(name):
    def f(ex, a, k):
        lead, tail = shape_arg(ex, a if a else [k['size']])
        nonneg(ex, lead)
        return drawn(ex, rgflag(ex, PTensor(tvar(ex.fresh_name(name), ex.loopidx, lead, tail), random=name), k))
    return f


def h_rand_like(name):
    def f(ex, a, k):
        o = ex.force(a[0])
        return drawn(ex, rgflag(ex, PTensor(tvar(ex.fresh_name(name), ex.loopidx, o.term.lead, o.term.tail), random=name), k))
    return f


def from_list(ex, vals, np=False):
    vals = [ex.force(v) for v in vals]
    fl = {'np': True} if np else {}
    if all(X().is_num(v) for v in vals):
        allint = all(X().is_int(v) for v in vals)
        if allint:
            fl['int'] = True
        parts = [tfull(v, [1]) for v in vals]
        if not parts:
            return PTensor(tfull(0, [0]), **fl)
        if len(parts) == 1:
            return PTensor(parts[0], **fl)
        return PTensor(Tensor('cat', [len(parts)], None, parts=tuple(parts), dim=0), **fl)
    if all(isinstance(v, PTensor) and not v.term.lead and v.term.tail is None for v in vals) and vals:
        parts = [Tensor('unsqueeze', [1], None, t=v.term, dim=0) for v in vals]
        if len(parts) == 1:
            return PTensor(parts[0], **fl)
        return PTensor(Tensor('cat', [len(parts)], None, parts=tuple(parts), dim=0), **fl)
    if all(isinstance(v, (PList, tuple)) for v in vals) and vals:
        rows = [from_list(ex, ex.iterate_concrete(v)) for v in vals]
        parts = [Tensor('unsqueeze', [1] + list(r.term.lead), None, t=r.term, dim=0) for r in rows]
        return PTensor(Tensor('cat', [len(parts)] + list(rows[0].term.lead), None, parts=tuple(parts), dim=0) if len(parts) > 1 else parts[0], **fl)
    raise Unsupported('tensor from list')


def bools(vals):
    return PTensor(Tensor('bools', [len(vals)], None, isbool=True, vals=tuple(vals)))


def boolv(parts):
    """vector of truth values with a symbolic length: runs (count, truth value)"""
    n = 0
    for c, _ in parts:
        n = simp(zi(n) + zi(c))
    return PTensor(Tensor('boolv', [n], None, isbool=True, parts=tuple((simp(c), v) for c, v in parts)))


def bool_runs(t):
    return [(1, c) for c in t.kw['vals']] if t.op == 'bools' else list(t.kw['parts'])


def h_tensor(ex, a, k):
    v = ex.force(a[0] if a else k['data'])
    if isinstance(v, PTensor):
        o = PTensor(detach(v.term))
        if v.flags.get('int'):
            o.flags['int'] = True
        return rgflag(ex, o, k)
    if isinstance(v, ShapeVal):
        return IntVec(v.lead, v)
    if isinstance(v, (PList, tuple)):
        if isinstance(v, PList) and not v.concrete():
            raise Unsupported('tensor from symbolic list')
        vals = ex.iterate_concrete(v)
        if vals and all(isinstance(x, bool) or is_zbool(x) for x in vals) and not k.get('requires_grad'):
            return bools(vals)
        if all(X().is_int(x) for x in vals) and vals:
            return IntVec(vals, ShapeVal(vals))
        if not vals:
            return IntVec([], ShapeVal([]))
        return rgflag(ex, from_list(ex, vals), k)
    if X().is_num(v):
        fl = {'int': True} if X().is_int(v) else {}
        return rgflag(ex, PTensor(tfull(v, []), **fl), k)
    raise Unsupported('torch.tensor of %s' % type(v).__name__)


def h_Tensor(ex, a, k):
    if len(a) == 1 and isinstance(ex.force(a[0]), (PList, tuple)):
        return from_list(ex, ex.iterate_concrete(a[0]))
    raise Unsupported('torch.Tensor()')


def h_prod(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, IntVec):
        if v.oshape is not None and v.oshape.tail is not None:
            return IntVec([v.oshape.numel()], scalar=True)
        r = 1
        for x in v.vals:
            r = simp(zi(r) * zi(x))
        return IntVec([r], scalar=True)
    if isinstance(v, ShapeVal):
        return v.numel()
    if isinstance(v, (tuple, PList)):
        r = 1
        for x in ex.iterate_concrete(v):
            r = X().num_binop(ex, 'Mult', r, x)
        return r
    raise Unsupported('prod')


def h_Size(ex, a, k):
    v = ex.force(a[0]) if a else ()
    if isinstance(v, ShapeVal):
        return v
    return ShapeVal([dimval(ex, x) for x in ex.iterate_concrete(v)])


# ------------------------------------------------------------------ cat / stack

def h_cat(ex, a, k):
    v = ex.force(a[0] if a else k['tensors'])
    dim = ex.force(k['dim'] if 'dim' in k else a[1] if len(a) > 1 else 0)
    it = ex.iterate(v)
    I = I_()
    if isinstance(it, I.SymIter):
        return cat_seq(ex, it, dim)
    if not isinstance(it, list):
        raise Unsupported('cat of segmented sequence')
    xs = [ex.force(x) for x in it]
    if not xs:
        rterr('expected a non-empty list of Tensors')
    for x in xs:
        if x is None or not isinstance(x, PTensor):
            raise PyRaise(ExcVal('TypeError', ('expected Tensor',)))
    ts = [x.term for x in xs]
    # legacy behaviour: 1-d empty tensors are skipped
    ts2 = [t for t in ts if not (t.tail is None and len(t.lead) == 1 and t.lead[0] == 0)]
    if not ts2:
        return PTensor(ts[0])
    ts = ts2
    n = len(ts[0].lead)
    tailed = ts[0].tail is not None
    if not isinstance(dim, int):
        raise Unsupported('symbolic cat dim')
    if not tailed and n == 0:
        rterr('zero-dimensional tensor cannot be concatenated')
    if dim < 0:
        if tailed:
            raise Unsupported('negative cat dim')
        dim += n
    if dim < 0 or dim >= n:
        if tailed:
            raise Unsupported('cat in the opaque tail')
        raise PyRaise(ExcVal('IndexError', ('Dimension out of range',)))
    tot = 0
    for t in ts:
        if (t.tail is None) == tailed or len(t.lead) != n:
            if t.tail is None and not tailed:
                rterr('Tensors must have same number of dimensions')
            raise Unsupported('cat of opaque shapes')
        for d in range(n):
            if d != dim and not dim_eq(ex, t.lead[d], ts[0].lead[d]):
                rterr('Sizes of tensors must match except in dimension')
        if tailed and ex.ctx.decide(t.tail.term == ts[0].tail.term) is not True:
            raise Unsupported('cat of opaque tails')
        tot = simp(zi(tot) + zi(t.lead[dim]))
    lead = list(ts[0].lead)
    lead[dim] = tot
    if any(t.op in ('bools', 'boolv') for t in ts):
        if not all(t.op in ('bools', 'boolv') for t in ts):
            raise Unsupported('cat of truth values and others')
        if any(t.op == 'boolv' for t in ts):
            return boolv([r for t in ts for r in bool_runs(t)])
        return bools([c for t in ts for c in t.kw['vals']])
    return PTensor(mkcat(ts, dim, lead, ts[0].tail))


def mkcat(ts, dim, lead, tail):
    flat = []
    for t in ts:
        if t.op == 'cat' and t.kw['dim'] == dim:
            flat += list(t.kw['parts'])
        else:
            flat.append(t)
    if len(flat) == 1:
        return flat[0]
    return Tensor('cat', lead, tail, parts=tuple(flat), dim=dim)


def cat_seq(ex, it, dim):
    i = ex.fresh_int('c')
    with ex.ctx.assume(i >= zi(it.lo), i < zi(it.hi)):
        b = I_().unbox(ex.deref(it.at(i)))
        if isinstance(b, PTensor):
            b = b.term
        if not isinstance(b, Tensor):
            raise Unsupported('cat of symbolic sequence')
    if not isinstance(dim, int) or dim < 0 or dim >= len(b.lead):
        raise Unsupported('cat dim of symbolic sequence')
    if ex.ctx.decide(zi(it.hi) > zi(it.lo)) is not True:
        if not ex.branch(simp(zi(it.hi) > zi(it.lo))):
            rterr('expected a non-empty list of Tensors')
    if simp(it.lo) != 0:
        b = tsubst(b, [(i, i + zi(it.lo))])
        n = simp(zi(it.hi) - zi(it.lo))
    else:
        n = it.hi
    for d, x in enumerate(b.lead):
        if d != dim and any(v.eq(i) for v in free_consts(zi(x))):
            raise Unsupported('cat of varying shapes')
    if b.tail is not None and any(v.eq(i) for v in free_consts(b.tail.term)):
        raise Unsupported('cat of varying tails')
    lead = list(b.lead)
    lead[dim] = simp(zi(PS.get(i, zi(b.lead[dim]))(n)))
    return PTensor(Tensor('catseq', lead, b.tail, dim=dim, n=n, ivar=i, body=b))


def h_stack(ex, a, k):
    v = ex.iterate_concrete(a[0] if a else k['tensors'])
    dim = k.get('dim', a[1] if len(a) > 1 else 0)
    return h_cat(ex, [PList([unsqueeze(ex, ex.force(x), dim) for x in v])], {'dim': dim})


# ------------------------------------------------------------------ indexing

def clip(ex, x, n, default):
    if x is None:
        return default
    x = ex.force(x)
    if isinstance(x, PTensor):
        x = item(ex, x)
    if not X().is_int(x):
        if isinstance(x, (Fraction, float, str)):
            raise PyRaise(ExcVal('TypeError', ('slice index',)))
        raise Unsupported('slice bound')
    if isinstance(x, int) and isinstance(n, int):
        if x < 0:
            x += n
        return min(max(x, 0), n)
    if ex.guess and ex.ctx.decide(simp(z3.And(zi(x) >= 0, zi(x) <= zi(n)))) is None:
        return x
    if ex.branch(simp(zi(x) < 0)):
        x = simp(zi(x) + zi(n))
        if ex.branch(simp(zi(x) < 0)):
            return 0
        return x
    if ex.branch(simp(zi(x) > zi(n))):
        return n
    return x


def slice_term(ex, t, d, s):
    n = t.lead[d]
    st = 1 if s.step is None else ex.force(s.step)
    if isinstance(st, PTensor):
        st = item(ex, st)
    if isinstance(st, int):
        if st <= 0:
            raise PyRaise(ExcVal('ValueError', ('slice step must be positive',)))
    else:
        if not X().is_int(st):
            raise Unsupported('slice step')
        if not ex.branch(simp(zi(st) > 0)):
            raise PyRaise(ExcVal('ValueError', ('slice step must be positive',)))
    lo = clip(ex, s.start, n, 0)
    hi = clip(ex, s.stop, n, n)
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
        ln = len(range(lo, hi, st))
    else:
        if st == 1:
            ln = simp(zi(hi) - zi(lo))
            if ex.guess and ex.ctx.decide(simp(zi(ln) >= 0)) is None:
                pass
            elif not ex.branch(simp(zi(ln) >= 0)):
                ln = 0
        else:
            if ex.branch(simp(zi(hi) >= zi(lo))):
                ln = simp((zi(hi) - zi(lo) + zi(st) - 1) / zi(st))
            else:
                ln = 0
    if lo == 0 and st == 1 and same_dim(ln, n):
        return t
    lead = list(t.lead)
    lead[d] = ln
    return Tensor('slice', lead, t.tail, t=t, dim=d, start=simp(lo), step=simp(st))


def mask_term(ex, t, d, m):
    """rows of t selected by a vector of truth values"""
    if not dim_eq(ex, t.lead[d], m.lead[0]):
        raise PyRaise(ExcVal('IndexError', ('the shape of the mask does not match',)))
    if m.op == 'boolv':
        off, parts, tot = 0, [], 0
        for n, c in m.kw['parts']:
            if c if isinstance(c, bool) else ex.branch(c):
                lead = list(t.lead)
                lead[d] = simp(n)
                parts.append(Tensor('slice', lead, t.tail, t=t, dim=d, start=simp(off), step=simp(1)))
                tot = simp(zi(tot) + zi(n))
            off = simp(zi(off) + zi(n))
        lead = list(t.lead)
        lead[d] = tot
        if not parts:
            return tfull(0, lead, t.tail)
        return parts[0] if len(parts) == 1 else mkcat(parts, d, lead, t.tail)
    sel = [j for j, c in enumerate(m.kw['vals']) if (c if isinstance(c, bool) else ex.branch(c))]
    parts = []
    for j in sel:
        lead = list(t.lead)
        lead[d] = 1
        parts.append(Tensor('slice', lead, t.tail, t=t, dim=d, start=simp(j), step=simp(1)))
    lead = list(t.lead)
    lead[d] = len(sel)
    if not parts:
        return tfull(0, lead, t.tail)
    return parts[0] if len(parts) == 1 else Tensor('cat', lead, t.tail, parts=tuple(parts), dim=d)


def index_term(ex, t, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [X().as_index(ex.force(x)) if not isinstance(x, slice) and x is not Ellipsis else x for x in ks]
    if any(x is Ellipsis for x in ks):
        p = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        used = len([x for x in ks if x is not Ellipsis and x is not None])
        if t.tail is not None:
            if p != len(ks) - 1:
                raise Unsupported('ellipsis in front of an opaque tail')
            ks = ks[:p]
        else:
            ks = ks[:p] + [slice(None)] * (len(t.lead) - used) + ks[p + 1:]
    d = 0
    for x in ks:
        if x is None:
            lead = list(t.lead)
            lead.insert(d, 1)
            t = Tensor('unsqueeze', lead, t.tail, t=t, dim=d)
            d += 1
            continue
        if isinstance(x, (PTensor, PList)):
            if isinstance(x, PTensor) and not x.term.lead and x.term.tail is None and not x.term.isbool:
                x = item(ex, x)
            elif isinstance(x, PTensor) and x.term.op in ('bools', 'boolv') and d < len(t.lead):
                t = mask_term(ex, t, d, x.term)
                d += 1
                continue
            else:
                raise Unsupported('advanced indexing')
        if d >= len(t.lead):
            if t.tail is not None:
                raise Unsupported('index into the opaque tail')
            raise PyRaise(ExcVal('IndexError', ('too many indices',)))
        if isinstance(x, slice):
            t = slice_term(ex, t, d, x)
            d += 1
            continue
        if isinstance(x, bool) or not X().is_int(x):
            if isinstance(x, (Fraction, float, str)):
                raise PyRaise(ExcVal('IndexError', ('index type',)))
            raise Unsupported('tensor index %r' % (x,))
        x = X().norm_index(ex, t.lead[d], x)
        lead = list(t.lead)
        del lead[d]
        t = Tensor('select', lead, t.tail, t=t, dim=d, index=simp(x))
    return t


def index(ex, o, k):
    if o.term.op == 'bools':
        k = X().as_index(ex.force(k)) if not isinstance(k, (slice, tuple)) else k
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            k = slice(*[None if x is None else ex.force(x) for x in (k.start, k.stop, k.step)])
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return bools(o.term.kw['vals'][k])
        elif isinstance(k, int) and not isinstance(k, bool):
            if not -o.term.lead[0] <= k < o.term.lead[0]:
                raise PyRaise(ExcVal('IndexError', ('index out of bounds',)))
            c = o.term.kw['vals'][k]
            r = PTensor(Tensor('bools', [], None, isbool=True, vals=(c,)))
            r.flags['cond'] = c
            return r
        raise Unsupported('index of truth values')
    r = index_term(ex, o.term, k)
    n = viewof(o, r)
    if o.flags.get('int'):
        n.flags['int'] = True
    return n


def setitem(ex, o, k, v):
    t = o.term
    ks = list(k) if isinstance(k, tuple) else [k]
    if any(x is Ellipsis for x in ks):
        p = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        used = len([x for x in ks if x is not Ellipsis])
        if t.tail is not None:
            raise Unsupported('store with opaque tail')
        ks = ks[:p] + [slice(None)] * (len(t.lead) - used) + ks[p + 1:]
    if t.tail is not None and len(ks) > len(t.lead):
        raise Unsupported('store into the opaque tail')
    if any(x is None for x in ks) or len(ks) > len(t.lead):
        if len(ks) > len(t.lead) and t.tail is None:
            raise PyRaise(ExcVal('IndexError', ('too many indices',)))
        raise Unsupported('store index')
    spec = []
    sub_lead = []
    for d, x in enumerate(ks):
        if isinstance(x, slice):
            s = slice_term(ex, t, d, x)
            if s is t:
                spec.append(('r', 0, t.lead[d]))
            else:
                if s.kw['step'] != 1:
                    raise Unsupported('strided store')
                spec.append(('r', s.kw['start'], s.lead[d]))
            sub_lead.append(spec[-1][2])
        else:
            x = ex.force(x)
            if isinstance(x, PTensor):
                if x.term.isbool:
                    if len(ks) != 1 or len(x.term.lead) != len(t.lead) or x.term.tail is not None or not all(dim_eq(ex, p, q) for p, q in zip(x.term.lead, t.lead)):
                        raise Unsupported('masked store')
                    val = term(ex, v)
                    if isinstance(val, Tensor) and (val.lead or val.tail is not None):
                        raise Unsupported('masked store of a tensor')
                    inplace(ex, o, where(ex, x.term, val, t))
                    return
                x = item(ex, x)
            if not X().is_int(x):
                raise Unsupported('store index')
            spec.append(('i', X().norm_index(ex, t.lead[d], x)))
    sub_lead += list(t.lead[len(ks):])
    val = term(ex, v)
    if isinstance(val, Expr):
        val = tfull(val, [])
    # broadcast the value to the region
    reg = tfull(0, sub_lead, t.tail)
    lead, tail, maps = bcast(ex, [reg, val])
    if len(lead) != len(sub_lead) or not all(dim_eq(ex, a, b) for a, b in zip(lead, sub_lead)):
        rterr('shape mismatch in store')
    new = Tensor('store', t.lead, t.tail, t=t, spec=tuple(spec), val=val, vmap=maps[1])
    inplace(ex, o, new)


def inplace(ex, o, new):
    if len(new.lead) != len(o.term.lead) or not all(dim_eq(ex, a, b) for a, b in zip(new.lead, o.term.lead)):
        rterr('output shape does not match the broadcast shape')
    r = root(o)
    whole = lambda x: x.oid == r or x.flags.get('whole')
    others = [x for x in Heap.objs if isinstance(x, PTensor) and x is not o and root(x) == r]
    if others and not (whole(o) and all(whole(x) for x in others)):
        raise Unsupported('in-place write to shared storage')
    if o.flags.get('shared') or 'base' in o.flags and o.flags['base'] != o.oid and o.flags.get('viewed', True) and not any(isinstance(x, PTensor) and x.oid == r for x in Heap.objs):
        raise Unsupported('in-place write to a tensor of unknown aliasing')
    if o.term.op == 'var' and o.flags.get('requires_grad') and not PTensor.nograd:
        rterr('a leaf Variable that requires grad is being used in an in-place operation')
    if o.flags.get('frozen'):
        ex.violations.append('in-place write to ' + str(o.flags['frozen']))
    if any(x.flags.get('frozen') for x in others):
        raise Unsupported('in-place write to a protected tensor')
    for x in [o] + others:
        if x.term.op == 'var' and x.flags.get('requires_grad') and x.term.kw['name'] in ex.grad_names:
            # a leaf stays a leaf, with another value
            nm = ex.fresh_name('leaf')
            sigma.LEAFDEFS[nm] = (ex.loopidx, detach(new))
            x.term = tvar(nm, ex.loopidx, new.lead, new.tail)
            ex.grad_names = ex.grad_names | {nm}
        else:
            x.term = new if x is o else detach(new)


def item(ex, o):
    t = o.term
    if isinstance(o, IntVec):
        return o.vals[0]
    if t.tail is not None or not all(d == 1 for d in t.lead):
        if t.tail is None and all(isinstance(d, int) for d in t.lead):
            rterr('a Tensor with more than one element cannot be converted to Scalar')
        raise Unsupported('item of a tensor')
    e = sigma.simplify_expr(sigma.elem(t, [0] * len(t.lead)))
    if t.isbool:
        c = o.flags.get('cond')
        if c is not None:
            return c
        raise Unsupported('item of bool')
    if o.flags.get('int'):
        if e.op == 'num':
            return int(e.args[0])
        if e.op == 'int':
            return e.args[0]
        z = sigma.int_of(e)
        if z is not None:
            return z
        raise Unsupported('integer item')
    if e.op == 'num':
        return e.args[0]
    if e.op == 'real':
        return e.args[0]
    z = X().expr_to_z3(e)
    if z is not None:
        return X().rsimp(z)
    return Expr('det', e)


# ------------------------------------------------------------------ views

def numel_eq(ex, s1, s2):
    a, b = s1.numel(), s2.numel()
    if same_dim(a, b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    return ex.branch(simp(zi(a) == zi(b)))


def view(ex, o, lead, tail, copy=False):
    t = o.term
    lead = list(lead)
    if any(isinstance(d, int) and d == -1 for d in lead):
        if len([d for d in lead if isinstance(d, int) and d == -1]) > 1:
            rterr('only one dimension can be inferred')
        p = [j for j, d in enumerate(lead) if isinstance(d, int) and d == -1][0]
        rest = ShapeVal(lead[:p] + lead[p + 1:], tail).numel()
        tot = t.numel()
        if rest == 1:
            lead[p] = tot
        elif isinstance(rest, int) and isinstance(tot, int):
            if rest == 0 or tot % rest:
                rterr('shape is invalid for input')
            lead[p] = tot // rest
        else:
            q = divide(tot, rest)
            if q is None:
                raise Unsupported('inferred dimension')
            lead[p] = q
    if len(lead) == len(t.lead) and (tail is None) == (t.tail is None) and all(same_dim(a, b) for a, b in zip(lead, t.lead)) and (tail is None or tail.term.eq(t.tail.term)):
        return viewof(o, t)
    if not numel_eq(ex, ShapeVal(lead, tail), t.shape()):
        rterr('shape is invalid for input')
    if t.op == 'view':
        t = t.kw['t']
        if len(lead) == len(t.lead) and tail is None and t.tail is None and all(same_dim(a, b) for a, b in zip(lead, t.lead)):
            return viewof(o, t)
    n = viewof(o, Tensor('view', lead, tail, t=t))
    if o.flags.get('int'):
        n.flags['int'] = True
    return n


def divide(tot, rest):
    """exact quotient of products of sizes, by cancelling factors"""
    def facs(x):
        x = z3.simplify(zi(x))
        if z3.is_int_value(x):
            return [x.as_long()] if x.as_long() != 1 else []
        if z3.is_mul(x):
            r = []
            for c in x.children():
                r += facs(c)
            return r
        return [x]
    a, b = facs(tot), facs(rest)
    ca = cb = 1
    ra = []
    for x in a:
        if isinstance(x, int):
            ca *= x
        else:
            ra.append(x)
    for x in b:
        if isinstance(x, int):
            cb *= x
        else:
            for j, y in enumerate(ra):
                if y.eq(x):
                    del ra[j]
                    break
            else:
                return None
    if ca % cb:
        return None
    r = z3.IntVal(ca // cb)
    for y in ra:
        r = r * y
    return simp(r)


def perm_term(ex, t, p):
    if t.tail is not None:
        raise Unsupported('permutation with opaque tail')
    if p == list(range(len(p))):
        return t
    if t.op == 'perm':
        q = t.kw['perm']
        return perm_term(ex, t.kw['t'], [q[x] for x in p])
    return Tensor('perm', [t.lead[x] for x in p], None, t=t, perm=tuple(p))


def ndim(ex, t, d, extra=0):
    d = ex.force(d)
    if not isinstance(d, int):
        raise Unsupported('symbolic dimension number')
    n = len(t.lead) + extra
    if t.tail is not None:
        if d < 0 or d >= n:
            raise Unsupported('dimension in the opaque tail')
        return d
    if d < -n or d >= n:
        if n == 0 and d in (0, -1):
            return 0
        raise PyRaise(ExcVal('IndexError', ('Dimension out of range',)))
    return d % n


def transpose(ex, o, a, b):
    t = o.term
    a, b = ndim(ex, t, a), ndim(ex, t, b)
    if t.tail is not None:
        raise Unsupported('transpose with opaque tail')
    p = list(range(len(t.lead)))
    if p:
        p[a], p[b] = p[b], p[a]
    return viewof(o, perm_term(ex, t, p))


def unsqueeze(ex, o, d):
    t = o.term
    d = ndim(ex, t, d, 1)
    lead = list(t.lead)
    lead.insert(d, 1)
    return viewof(o, Tensor('unsqueeze', lead, t.tail, t=t, dim=d))


def squeeze(ex, o, d=None):
    t = o.term
    if d is None:
        if t.tail is not None:
            raise Unsupported('squeeze with opaque tail')
        ds = [k for k, x in enumerate(t.lead) if dim_eq(ex, x, 1)]
    else:
        d = ndim(ex, t, d)
        ds = [d] if (len(t.lead) and dim_eq(ex, t.lead[d], 1)) else []
    for k in reversed(ds):
        lead = list(t.lead)
        del lead[k]
        t = Tensor('select', lead, t.tail, t=t, dim=k, index=0)
    return viewof(o, t)


def expand(ex, o, lead, tail):
    t = o.term
    if tail is not None or t.tail is not None:
        raise Unsupported('expand with opaque tail')
    off = len(lead) - len(t.lead)
    if off < 0:
        rterr('expand')
    new = []
    for k, d in enumerate(lead):
        if k < off:
            new.append(d)
        else:
            s = t.lead[k - off]
            if isinstance(d, int) and d == -1:
                new.append(s)
            elif same_dim(s, d):
                new.append(d)
            elif s == 1 or ex.branch(simp(zi(s) == 1)):
                new.append(d)
            elif dim_eq(ex, s, d):
                new.append(d)
            else:
                rterr('expand')
    z = tfull(0, new)
    lead2, _, maps = bcast(ex, [z, t])
    return viewof(o, Tensor('ew', new, None, f='id', args=(t,), maps=(maps[1],)))


def repeat(ex, o, reps):
    t = o.term
    if t.tail is not None:
        raise Unsupported('repeat with opaque tail')
    if len(reps) < len(t.lead):
        rterr('repeat')
    off = len(reps) - len(t.lead)
    lead = []
    for k, r in enumerate(reps):
        lead.append(r if k < off else simp(zi(t.lead[k - off]) * zi(r)))
    return out(ex, Tensor('repeat', lead, None, t=t, reps=tuple(reps)), o)


# ------------------------------------------------------------------ reductions / products

def dims_of(ex, t, d):
    d = ex.force(d)
    if d is None:
        return list(range(t.nidx()))
    if isinstance(d, (tuple, PList)):
        return sorted(ndim(ex, t, x) for x in ex.iterate_concrete(d))
    return [ndim(ex, t, d)]


def reduce_sum(ex, t, dims, keepdim=False):
    if not dims:
        return t
    lead = []
    tail = t.tail
    for k, d in enumerate(t.lead):
        if k in dims:
            if keepdim:
                lead.append(1)
        else:
            lead.append(d)
    if len(t.lead) in dims:
        tail = None
        if keepdim:
            raise Unsupported('keepdim with opaque tail')
    return Tensor('sum', lead, tail, t=t, dims=tuple(dims), keepdim=keepdim)


def h_sum(mean):
    def f(ex, a, k):
        o = ex.force(a[0] if a else k['input'])
        if isinstance(o, (PList, tuple)):
            o = from_list(ex, ex.iterate_concrete(o), np=True)
        if not isinstance(o, PTensor):
            if X().is_num(o):
                return o
            raise PyRaise(ExcVal('TypeError', ('not a tensor',)))
        d = k.get('dim', k.get('axis', a[1] if len(a) > 1 else None))
        kd = ex.truth(k.get('keepdim', a[2] if len(a) > 2 else False))
        dims = dims_of(ex, o.term, d)
        r = reduce_sum(ex, o.term, dims, kd)
        if mean:
            n = 1
            for x in dims:
                n = simp(zi(n) * zi(o.term.lead[x] if x < len(o.term.lead) else o.term.tail.numel()))
            if isinstance(n, int):
                if n == 0:
                    raise Unsupported('mean of nothing')
            elif ex.ctx.decide(zi(n) > 0) is not True:
                for x in dims:
                    y = o.term.lead[x] if x < len(o.term.lead) else o.term.tail.numel()
                    if not ex.branch(simp(zi(y) > 0)):
                        raise Unsupported('mean of nothing')
            r = ew(ex, 'div', [r, num(n)])
        return out(ex, r, o)
    return f


def matmul(ex, a, b):
    a, b = ex.force(a), ex.force(b)
    if not isinstance(a, PTensor) or not isinstance(b, PTensor):
        raise PyRaise(ExcVal('TypeError', ('matmul',)))
    return out(ex, matmul_t(ex, a.term, b.term), a, b)


def matmul_t(ex, x, y):
    if x.tail is not None or y.tail is not None:
        raise Unsupported('matmul with opaque tail')
    if not x.lead or not y.lead:
        rterr('both arguments to matmul need to be at least 1D')
    ka = x.lead[-1]
    kb = y.lead[-2] if len(y.lead) > 1 else y.lead[0]
    if not dim_eq(ex, ka, kb):
        rterr('mat1 and mat2 shapes cannot be multiplied')
    ba, bb = list(x.lead[:-2]), list(y.lead[:-2])
    n = max(len(ba), len(bb))
    bt = []
    for k in range(n):
        p = ba[k - (n - len(ba))] if k >= n - len(ba) else None
        q = bb[k - (n - len(bb))] if k >= n - len(bb) else None
        if p is None or q is None:
            bt.append(q if p is None else p)
        elif same_dim(p, q):
            bt.append(p)
        elif p == 1 or q == 1:
            raise Unsupported('batch broadcast in matmul')
        elif dim_eq(ex, p, q):
            bt.append(p)
        else:
            raise Unsupported('batch broadcast in matmul')
    lead = bt + ([x.lead[-2]] if len(x.lead) > 1 else []) + ([y.lead[-1]] if len(y.lead) > 1 else [])
    return Tensor('matmul', lead, None, a=x, b=y)


def linear(ex, x, w, b=None):
    if not isinstance(x, PTensor) or not isinstance(w, PTensor):
        raise PyRaise(ExcVal('TypeError', ('linear',)))
    wt = perm_term(ex, w.term, list(range(len(w.term.lead)))[::-1])
    r = matmul_t(ex, x.term, wt)
    if b is not None:
        if not isinstance(b, PTensor):
            raise PyRaise(ExcVal('TypeError', ('linear',)))
        r0 = ew(ex, 'add', [r, b.term])
        if len(r0.lead) != len(r.lead) or not all(dim_eq(ex, p, q) for p, q in zip(r0.lead, r.lead)):
            rterr('bias shape')
        r = r0
    return PTensor(r)


def h_linear(ex, a, k):
    names = ['input', 'weight', 'bias']
    p = dict(zip(names, a))
    p.update(k)
    return linear(ex, ex.force(p['input']), ex.force(p['weight']), ex.force(p.get('bias')))


def pair(ex, v):
    v = ex.force(v)
    if isinstance(v, (tuple, PList)):
        v = ex.iterate_concrete(v)
        if len(v) == 1:
            return (v[0], v[0])
        return (v[0], v[1])
    return (v, v)


def h_conv2d(ex, a, k):
    names = ['input', 'weight', 'bias', 'stride', 'padding', 'dilation', 'groups']
    p = dict(bias=None, stride=1, padding=0, dilation=1, groups=1)
    p.update(dict(zip(names, a)))
    p.update(k)
    x, w, b = ex.force(p['input']), ex.force(p['weight']), ex.force(p['bias'])
    if not isinstance(x, PTensor) or not isinstance(w, PTensor):
        raise PyRaise(ExcVal('TypeError', ('conv2d',)))
    xt, wt = x.term, w.term
    if len(xt.lead) != 4 or xt.tail is not None:
        raise Unsupported('conv2d input rank')
    s, pd, dl, g = pair(ex, p['stride']), p['padding'], pair(ex, p['dilation']), ex.force(p['groups'])
    if isinstance(pd, str):
        if pd == 'same':
            raise Unsupported('same padding')
        pd = 0
    pd = pair(ex, pd)
    if not same_dim(g, 1):
        # grouped convolution is kept uninterpreted
        lead = conv_shape(ex, xt, wt, s, pd, dl)
        return PTensor(Tensor('opaque', lead, None, name='conv2d_g', args=(xt, wt) + ((b.term,) if b is not None else ()) + (tuple(s), tuple(pd), tuple(dl), g)))
    if not dim_eq(ex, xt.lead[1], wt.lead[1]):
        rterr('conv2d channels')
    lead = conv_shape(ex, xt, wt, s, pd, dl)
    if b is not None and not dim_eq(ex, b.term.lead[0], wt.lead[0]):
        rterr('conv2d bias')
    kw = dict(x=xt, w=wt, stride=tuple(s), padding=tuple(pd), dilation=tuple(dl))
    if b is not None:
        kw['b'] = b.term
    return PTensor(Tensor('conv2d', lead, None, **kw))


def conv_shape(ex, xt, wt, s, pd, dl):
    lead = [xt.lead[0], wt.lead[0]]
    for j in range(2):
        h, kk = xt.lead[2 + j], wt.lead[2 + j]
        ext = simp(zi(h) + 2 * zi(pd[j]) - zi(dl[j]) * (zi(kk) - 1) - 1)
        if not ex.branch(simp(zi(ext) >= 0)):
            rterr('kernel size cannot be greater than input size')
        if s[j] == 1:
            lead.append(simp(zi(ext) + 1))
        else:
            lead.append(simp(zi(ext) / zi(s[j]) + 1))
    return lead


def h_opaque(name, shape_from=0):
    def f(ex, a, k):
        args = [term(ex, x) if isinstance(ex.force(x), (PTensor, int, Fraction, Expr)) or X().is_num(ex.force(x)) else Expr('opaque', repr(ex.force(x)), ()) for x in a]
        for kk in sorted(k):
            v = ex.force(k[kk])
            args.append(Expr('opaque', kk, ()))
            args.append(term(ex, v) if isinstance(v, PTensor) or X().is_num(v) else Expr('opaque', repr(v) if not isinstance(v, (PList, tuple)) else akey([zi(q) for q in ex.iterate_concrete(v)]), ()))
        o = ex.force(a[shape_from])
        return out(ex, Tensor('opaque', o.term.lead, o.term.tail, name=name, args=tuple(args)), o)
    return f


def h_group_norm(ex, a, k):
    names = ['input', 'num_groups', 'weight', 'bias', 'eps']
    p = dict(weight=None, bias=None, eps=Fraction(1, 100000))
    p.update(dict(zip(names, a)))
    p.update(k)
    if set(p) != set(names):
        raise Unsupported('group_norm arguments')
    x = ex.force(p['input'])
    if not isinstance(x, PTensor):
        raise PyRaise(ExcVal('TypeError', ('group_norm',)))
    args = []
    for n in names:
        v = ex.force(p[n])
        if n in ('weight', 'bias') and v is not None:
            if not isinstance(v, PTensor):
                raise PyRaise(ExcVal('TypeError', ('group_norm',)))
            if len(v.term.lead) != 1 or len(x.term.lead) < 2 or not dim_eq(ex, v.term.lead[0], x.term.lead[1]):
                rterr('group_norm parameter shape')
        args.append(term(ex, v) if v is not None else Expr('opaque', 'None', ()))
    return out(ex, Tensor('gnorm', x.term.lead, x.term.tail, args=tuple(args)), x)


def h_pad(ex, a, k):
    names = ['input', 'pad', 'mode', 'value']
    p = dict(mode='constant', value=0)
    p.update(dict(zip(names, a)))
    p.update(k)
    x = ex.force(p['input'])
    pd = ex.iterate_concrete(p['pad'])
    t = x.term
    lead = list(t.lead)
    if t.tail is not None:
        raise Unsupported('pad with opaque tail')
    for j in range(len(pd) // 2):
        d = len(lead) - 1 - j
        lead[d] = simp(zi(lead[d]) + zi(pd[2 * j]) + zi(pd[2 * j + 1]))
    if p['value'] is None:
        p['value'] = 0
    return PTensor(Tensor('opaque', lead, None, name='pad:' + str(p['mode']), args=(t,) + tuple(num(q) for q in pd) + (term(ex, p['value']),)))


def h_fn(name):
    def f(ex, a, k):
        o = ex.force(a[0] if a else k['input'])
        if isinstance(o, PTensor):
            return unary(ex, name, o)
        if X().is_num(o):
            e = num(o)
            if e.op == 'num':
                r = fn_const(name, e.args[0])
                if r is not None:
                    return r
            return fn(name, e)
        raise Unsupported(name)
    return f


def fn_const(name, x):
    if name == 'log2' and x > 0:
        import math
        n = math.log2(x)
        if n == int(n) and Fraction(2) ** int(n) == x:
            return Fraction(int(n))
    if name == 'exp' and x == 0:
        return Fraction(1)
    if name in ('sin', 'tanh') and x == 0:
        return Fraction(0)
    return None


# ------------------------------------------------------------------ autograd

def autograd_grad(ex, a, k):
    names = ['outputs', 'inputs', 'grad_outputs', 'retain_graph', 'create_graph', 'only_inputs', 'allow_unused']
    p = dict(zip(names, a))
    p.update(k)
    outs = ex.force(p['outputs'])
    ins = ex.force(p['inputs'])
    go = ex.force(p.get('grad_outputs'))
    if isinstance(outs, (tuple, PList)):
        l = ex.iterate_concrete(outs)
        if len(l) != 1:
            raise Unsupported('several outputs')
        outs = ex.force(l[0])
        if isinstance(go, (tuple, PList)):
            go = ex.force(ex.iterate_concrete(go)[0])
    single = isinstance(ins, PTensor)
    t = outs.term
    if not needs_grad(ex, outs):
        rterr('element 0 of tensors does not require grad and does not have a grad_fn')
    if go is not None:
        if len(go.term.lead) != len(t.lead) or not all(dim_eq(ex, x, y) for x, y in zip(go.term.lead, t.lead)):
            rterr('Mismatch in shape of grad_output')
        g = go.term
        if not (g.op == 'full' and g.kw['value'] == ONE):
            t = ew(ex, 'mul', [detach(g), t])
    elif t.lead or t.tail is not None:
        rterr('grad can be implicitly created only for scalar outputs')
    s = reduce_sum(ex, t, list(range(t.nidx()))) if t.nidx() else t
    deps = tdeps(s)
    coef = None
    while s.op == 'ew' and s.kw['f'] == 'mul' and not s.nidx():      # the derivative is linear: constant factors in front
        cs = [x for x in s.kw['args'] if isinstance(x, Expr) and x.op in ('num', 'int', 'real')]
        ts = [x for x in s.kw['args'] if isinstance(x, Tensor)]
        if len(ts) != 1 or len(cs) + 1 != len(s.kw['args']):
            break
        coef = mul(*(cs + ([coef] if coef is not None else [])))
        s = ts[0]
    cg = ex.truth(p.get('create_graph', False) or False)
    au = ex.truth(p.get('allow_unused', False) or False)
    it = [ins] if single else ex.iterate(ins)

    def one(v):
        v = ex.force(v)
        if not isinstance(v, PTensor):
            raise PyRaise(ExcVal('TypeError', ('grad wrt non-tensor',)))
        w = v.term
        if w.op != 'var':
            raise Unsupported('derivative with respect to an intermediate tensor')
        if w.kw['name'] not in ex.grad_names:
            rterr('One of the differentiated Tensors does not require grad')
        if w.kw['name'] not in deps:
            if au:
                return None
            rterr('One of the differentiated Tensors appears to not have been used in the graph')
        g = Tensor('grad', w.lead, w.tail, t=s, wrt=w)
        if coef is not None:
            g = ew(ex, 'mul', [coef, g])
        return PTensor(g if cg else detach(g))
    I = I_()
    if isinstance(it, I.SymIter):
        i = ex.fresh_int('g')
        with ex.ctx.assume(i >= zi(it.lo), i < zi(it.hi)):
            v = ex.deref(it.at(i))
            r = one(v)
            r = None if r is None else r.term
        return SymTuple([Seg(it.lo, it.hi, i, r)])
    if not isinstance(it, list):
        segs = []
        for part in it.parts:
            if isinstance(part, list):
                segs += [Item(one(x)) for x in part]
            else:
                raise Unsupported('gradient with respect to segmented tuple')
        return SymTuple(segs)
    if not it:
        rterr('grad requires non-empty inputs.')
    return tuple(one(v) for v in it)


# ------------------------------------------------------------------ attributes and methods

def same(ex, o, t, fresh=True):
    return out(ex, t, o)


def get_attr(ex, o, name):
    I = I_()
    t = o.term

    def bi(f):
        return I.Bi('Tensor.' + name, f)
    if name == 'shape':
        if o.flags.get('np'):
            return tuple(t.lead) if t.tail is None else t.shape()
        return t.shape()
    if name == 'size':
        if o.flags.get('np'):
            return t.numel()

        def f(ex, a, k):
            d = a[0] if a else k.get('dim')
            if d is None:
                return t.shape()
            return X().get_item(ex, t.shape(), ex.force(d))
        return bi(f)
    if name in ('dim', 'ndimension'):
        return bi(lambda ex, a, k: X()._len(ex, [t.shape()], {}))
    if name == 'ndim':
        return X()._len(ex, [t.shape()], {})
    if name in ('numel', 'nelement'):
        return bi(lambda ex, a, k: t.numel())
    if name == 'device':
        return I.ExtObj('device', attrs={'type': 'cpu'})
    if name == 'dtype':
        return I.ExtObj('torch.bool' if t.isbool else 'torch.int64' if o.flags.get('int') else 'torch.float32')
    if name == 'is_cuda':
        return False
    if name == 'is_floating_point':
        return bi(lambda ex, a, k: not t.isbool and not o.flags.get('int'))
    if name == 'requires_grad':
        return needs_grad(ex, o)
    if name == 'is_leaf':
        return o.term.op == 'var' or not needs_grad(ex, o)
    if name == 'grad':
        return o.flags.get('grad')
    if name == 'data':
        return viewof(o, detach(t), **({'whole': True} if root(o) == o.oid or o.flags.get('whole') else {}))
    if name == 'T':
        return viewof(o, perm_term(ex, t, list(range(len(t.lead)))[::-1]))
    if name in ('view', 'reshape'):
        def f(ex, a, k):
            if name == 'view' and len(a) == 1 and isinstance(a[0], I.ExtObj):
                raise Unsupported('view dtype')
            lead, tail = shape_arg(ex, a)
            return view(ex, o, lead, tail)
        return bi(f)
    if name == 'view_as' or name == 'reshape_as':
        return bi(lambda ex, a, k: view(ex, o, ex.force(a[0]).term.lead, ex.force(a[0]).term.tail))
    if name == 'flatten':
        return bi(lambda ex, a, k: view(ex, o, [-1], None) if not a and not k else _u('flatten'))
    if name == 'contiguous':
        return bi(lambda ex, a, k: viewof(o, t))
    if name in ('clone',):
        return bi(lambda ex, a, k: out(ex, t if t.op != 'var' else Tensor('ew', t.lead, t.tail, f='id', args=(t,), maps=((0, [False] * t.nidx()),)), o))
    if name == 'copy':
        return bi(lambda ex, a, k: out(ex, t, o))
    if name == 'detach':
        return bi(lambda ex, a, k: viewof(o, detach(t), requires_grad=False))
    if name == 'requires_grad_':
        def f(ex, a, k):
            set_requires_grad(ex, o, a[0] if a else k.get('requires_grad', True))
            return o
        return bi(f)
    if name == 'retain_grad':
        return bi(lambda ex, a, k: None)
    if name in ('transpose', 'swapaxes'):
        return bi(lambda ex, a, k: transpose(ex, o, k.get('dim0', a[0] if a else None), k.get('dim1', a[1] if len(a) > 1 else None)))
    if name == 't':
        def f(ex, a, k):
            if len(t.lead) > 2:
                rterr('t() expects a tensor with <= 2 dimensions')
            return viewof(o, perm_term(ex, t, list(range(len(t.lead)))[::-1]))
        return bi(f)
    if name == 'permute':
        def f(ex, a, k):
            ds = ex.iterate_concrete(a[0]) if len(a) == 1 and isinstance(ex.force(a[0]), (tuple, PList)) else a
            p = [ndim(ex, t, x) for x in ds]
            if sorted(p) != list(range(len(t.lead))):
                rterr('permute')
            return viewof(o, perm_term(ex, t, p))
        return bi(f)
    if name == 'unsqueeze':
        return bi(lambda ex, a, k: unsqueeze(ex, o, k.get('dim', a[0] if a else None)))
    if name == 'squeeze':
        return bi(lambda ex, a, k: squeeze(ex, o, k.get('dim', a[0] if a else None)))
    if name == 'expand':
        return bi(lambda ex, a, k: expand(ex, o, *shape_arg(ex, a)))
    if name == 'expand_as':
        return bi(lambda ex, a, k: expand(ex, o, ex.force(a[0]).term.lead, ex.force(a[0]).term.tail))
    if name == 'repeat':
        return bi(lambda ex, a, k: repeat(ex, o, shape_arg(ex, a)[0]))
    if name == 'narrow':
        def f(ex, a, k):
            p = dict(zip(['dim', 'start', 'length'], a))
            p.update(k)
            d = ndim(ex, t, p['dim'])
            st, ln = ex.force(p['start']), ex.force(p['length'])
            if not ex.branch(simp(z3.And(zi(st) >= 0, zi(ln) >= 0, zi(st) + zi(ln) <= zi(t.lead[d])))):
                rterr('narrow out of range')
            return viewof(o, slice_term(ex, t, d, slice(st, simp(zi(st) + zi(ln)), None)))
        return bi(f)
    if name == 'select':
        def f(ex, a, k):
            p = dict(zip(['dim', 'index'], a))
            p.update(k)
            d = ndim(ex, t, p['dim'])
            return viewof(o, index_term(ex, t, tuple([slice(None)] * d + [ex.force(p['index'])])))
        return bi(f)
    if name in ('sum', 'mean'):
        return bi(lambda ex, a, k: h_sum(name == 'mean')(ex, [o] + list(a), k))
    if name in ('matmul', 'mm', 'bmm', 'dot'):
        return bi(lambda ex, a, k: matmul(ex, o, a[0]))
    if name == 'pow':
        return bi(lambda ex, a, k: tensor_binop(ex, 'Pow', o, a[0]))
    if name in ('add', 'sub', 'mul', 'div'):
        return bi(lambda ex, a, k: tensor_binop(ex, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'div': 'Div'}[name], o, a[0]))
    if name in ('add_', 'sub_', 'mul_', 'div_'):
        def f(ex, a, k):
            v = a[0]
            if 'alpha' in k:
                v = X().binop(ex, 'Mult', k['alpha'], v)
            r = tensor_binop(ex, {'add_': 'Add', 'sub_': 'Sub', 'mul_': 'Mult', 'div_': 'Div'}[name], o, v)
            inplace(ex, o, r.term)
            return o
        return bi(f)
    if name in ('exp', 'tanh', 'sigmoid', 'abs', 'sqrt', 'log', 'log2', 'relu', 'sin', 'cos', 'neg', 'square'):
        if name == 'square':
            return bi(lambda ex, a, k: tensor_binop(ex, 'Pow', o, 2))
        return bi(lambda ex, a, k: unary(ex, name, o))
    if name in ('cpu', 'cuda', 'to', 'type', 'float', 'double', 'type_as'):
        if name == 'type' or name == 'to' or name == 'type_as':
            def f(ex, a, k):
                for x in list(a) + list(k.values()):
                    x = ex.force(x)
                    if isinstance(x, I.ExtObj) and x.name in ('torch.long', 'torch.int64', 'torch.bool'):
                        raise Unsupported('conversion to integers')
                    if X().narrow(x):
                        raise Unsupported('element type %s' % x.name)
                return o
            return bi(f)
        return bi(lambda ex, a, k: o)
    if name == 'numpy':
        def f(ex, a, k):
            if needs_grad(ex, o):
                rterr("Can't call numpy() on Tensor that requires grad")
            return viewof(o, t, np=True)
        return bi(f)
    if name == 'new':
        def f(ex, a, k):
            lead, tail = shape_arg(ex, a)
            return PTensor(tvar(ex.fresh_name('uninit'), ex.loopidx, lead, tail))
        return bi(f)
    if name in ('new_zeros', 'new_ones'):
        return bi(h_full(0 if name == 'new_zeros' else 1))
    if name in ('fill_', 'zero_'):
        def f(ex, a, k):
            inplace(ex, o, tfull(term(ex, a[0]) if name == 'fill_' else 0, t.lead, t.tail))
            return o
        return bi(f)
    if name == 'copy_':
        def f(ex, a, k):
            v = term(ex, a[0])
            lead, tail, maps = bcast(ex, [tfull(0, t.lead, t.tail), v])
            inplace(ex, o, Tensor('ew', t.lead, t.tail, f='id', args=(v,), maps=(maps[1],)))
            return o
        return bi(f)
    if name == 'item':
        return bi(lambda ex, a, k: item(ex, o))
    if name == 'tolist':
        def f(ex, a, k):
            if len(t.lead) == 1 and isinstance(t.lead[0], int):
                return PList([item(ex, index(ex, o, j)) for j in range(t.lead[0])])
            if not t.lead:
                return item(ex, o)
            raise Unsupported('tolist')
        return bi(f)
    if name == 'is_contiguous':
        def f(ex, a, k):
            if a or k:
                raise Unsupported('is_contiguous')
            if t.op in ('full', 'cat') and not o.flags.get('base'):
                return True
            nm = 'contiguous!%s' % ex.fresh_name('c')
            return z3.Function(nm, *([z3.IntSort()] * len(ex.loopidx) + [z3.BoolSort()]))(*ex.loopidx) if ex.loopidx else z3.Bool(nm)
        return bi(f)
    if name in ('__len__',):
        return bi(lambda ex, a, k: t.lead[0])
    if name == 'norm':
        return bi(lambda ex, a, k: h_norm(ex, [o] + list(a), k))
    if name in ('prod',):
        raise Unsupported('tensor.prod')
    if name == 'svd':
        return bi(lambda ex, a, k: h_svd(ex, [o] + list(a), k))
    if name in ('clamp', 'clip'):
        return bi(lambda ex, a, k: h_clamp(ex, [o] + list(a), k))
    if name in ('maximum', 'minimum'):
        return bi(lambda ex, a, k: h_maximum(1 if name == 'maximum' else -1)(ex, [o] + list(a), k))
    if name == 'backward':
        raise Unsupported('backward')
    if name in KNOWN_TENSOR_ATTRS:
        raise Unsupported('Tensor.' + name)
    raise PyRaise(ExcVal('AttributeError', (name,)))


KNOWN_TENSOR_ATTRS = set()
try:
    import torch as _t
    KNOWN_TENSOR_ATTRS = set(dir(_t.Tensor)) | set(dir(_t)) | set(dir(_t.nn.functional))
except Exception:
    pass


def _u(m):
    raise Unsupported(m)


def h_norm(ex, a, k):
    o = ex.force(a[0])
    p = ex.force(k.get('p', a[1] if len(a) > 1 else 'fro'))
    if k.get('dim') is not None:
        raise Unsupported('norm over dims')
    if p == 'fro' or p == 2:
        s = reduce_sum(ex, ew(ex, ('pow', 2), [o.term]), list(range(o.term.nidx())))
        return out(ex, ew(ex, ('fn', 'sqrt'), [s]), o)
    return out(ex, Tensor('opaque', [], None, name='norm:%s' % (p,), args=(o.term,)), o)


def h_checkpoint(ex, a, k):
    """checkpoint(f, *args) = f(*args), with the same derivatives"""
    k = dict((n, v) for n, v in k.items() if n not in ('use_reentrant', 'preserve_rng_state', 'determinism_check', 'debug', 'early_stop', 'context_fn'))
    return ex.call(a[0], list(a[1:]), k)


def h_linspace(ex, a, k):
    p = dict(zip(['start', 'end', 'steps'], a))
    p.update(k)
    s, e, n = ex.force(p['start']), ex.force(p.get('end', p.get('stop'))), ex.force(p.get('steps', p.get('num')))
    s, e = [sigma.simplify_expr(sigma.elem(x.term, [])) if isinstance(x, PTensor) and not x.term.lead and x.term.tail is None else x for x in (s, e)]
    if isinstance(n, (Fraction,)) and n.denominator == 1:
        raise PyRaise(ExcVal('TypeError', ('steps must be int',)))
    if not X().is_int(n):
        raise Unsupported('linspace')
    if isinstance(n, int) and n <= 1:
        if n == 1:
            return PTensor(tfull(s, [1]))
        if n < 0:
            rterr('number of steps must be non-negative')
        return PTensor(tfull(0, [0]))
    if not isinstance(n, int) and not ex.branch(simp(zi(n) >= 2)):
        raise Unsupported('linspace with fewer than two steps')
    return PTensor(Tensor('linspace', [n], None, start=num(s), end=num(e), n=n))


def h_arange_real(ex, lo, hi, st):
    lo, hi, st = [X().expr_to_z3(sigma.simplify_expr(sigma.elem(x.term, []))) if isinstance(x, PTensor) else X().zr(x) for x in (lo, hi, st)]
    if any(x is None for x in (lo, hi, st)):
        raise Unsupported('arange')
    if not ex.branch(simp(st > 0)):
        rterr('step must be positive') if ex.branch(simp(z3.Or(st == 0, hi > lo))) else None
        raise Unsupported('arange')
    if not ex.branch(simp(hi >= lo)):
        rterr('upper bound and lower bound inconsistent with step sign')
    for n in range(12):
        if ex.branch(simp(hi <= lo + n * st)):
            return PTensor(Tensor('cat', [n], None, parts=tuple(tfull(ext_real(lo + j * st), [1]) for j in range(n)), dim=0) if n > 1 else tfull(ext_real(lo), [n]))
    raise Unsupported('long arange')


def ext_real(z):
    return num(simp(z))


def h_arange(ex, a, k):
    a = [ex.force(x) for x in a]
    if len(a) == 3 or any(isinstance(x, PTensor) for x in a):
        if len(a) < 3 or all(X().is_int(x) for x in a):
            raise Unsupported('arange')
        return h_arange_real(ex, *a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2 or not X().is_int(lo) or not X().is_int(hi):
        raise Unsupported('arange')
    n = simp(zi(hi) - zi(lo))
    if not ex.branch(simp(zi(n) >= 0)):
        rterr('arange')
    return PTensor(Tensor('iota', [n], None, start=simp(lo)), int=True)


def h_nparray(ex, a, k):
    v = ex.force(a[0])
    if isinstance(v, PTensor):
        return PTensor(v.term, np=True)
    if X().is_num(v):
        return PTensor(tfull(v, []), np=True)
    if isinstance(v, PList) and not v.concrete():
        segs = v.segs
        if len(segs) == 1 and isinstance(segs[0], Seg) and X().is_num(segs[0].body):
            s = segs[0]
            b = tfull(num(s.body), [1])
            return PTensor(h_cat_term(ex, s, b), np=True)
        if len(segs) == 1 and isinstance(segs[0], Seg) and isinstance(segs[0].body, Tensor) and segs[0].body.tail is None:
            s = segs[0]
            bb = s.body
            b = Tensor('unsqueeze', [1] + list(bb.lead), None, t=bb, dim=0)
            return PTensor(h_cat_term(ex, s, b), np=True)
        raise Unsupported('np.array of symbolic list')
    return from_list(ex, ex.iterate_concrete(v), np=True)


def h_cat_term(ex, s, b):
    n = s.length()
    if simp(s.lo) != 0:
        b = tsubst(b, [(s.ivar, s.ivar + zi(s.lo))])
    lead = list(b.lead)
    lead[0] = n
    return Tensor('catseq', lead, None, dim=0, n=n, ivar=s.ivar, body=b)


def where(ex, c, x, y):
    """c ? x : y for a 0/1 tensor c"""
    return ew(ex, 'add', [ew(ex, 'mul', [c, x]), ew(ex, 'mul', [ew(ex, 'not', [c]), y])])


def h_where(ex, a, k):
    if len(a) != 3 or k:
        raise Unsupported('where')
    c = ex.force(a[0])
    if not isinstance(c, PTensor) or not c.term.isbool:
        raise Unsupported('where')
    return out(ex, where(ex, c.term, term(ex, a[1]), term(ex, a[2])), *[x for x in (ex.force(y) for y in a) if isinstance(x, PTensor)])


def h_maximum(sign):
    """elementwise maximum (minimum for sign -1) of a tensor and a tensor or number: x where x-y >= 0, else y"""
    def f(ex, a, k):
        if len(a) != 2 or k:
            raise Unsupported('maximum')
        x, y = term(ex, a[0]), term(ex, a[1])
        if not isinstance(x, Tensor):
            x, y = y, x
        c = ew(ex, 'ge', [x, y] if sign > 0 else [y, x])
        return out(ex, where(ex, c, x, y), *[q for q in (ex.force(z) for z in a) if isinstance(q, PTensor)])
    return f


def h_clamp(ex, a, k):
    p = dict(min=None, max=None)
    p.update(dict(zip(['input', 'min', 'max'], a)))
    for kk in k:
        p[{'a_min': 'min', 'a_max': 'max', 'a': 'input'}.get(kk, kk)] = k[kk]
    o = ex.force(p['input'])
    r = o
    if p['min'] is not None:
        r = h_maximum(1)(ex, [r, p['min']], {})
    if p['max'] is not None:
        r = h_maximum(-1)(ex, [r, p['max']], {})
    return r


def h_svd(ex, a, k):
    o = ex.force(a[0] if a else k.get('input', k.get('A')))
    t = o.term
    if t.tail is not None or len(t.lead) != 2 or len(a) > 1 or len(k) > (0 if a else 1):
        raise Unsupported('svd')
    m = simp(z3.If(zi(t.lead[0]) <= zi(t.lead[1]), zi(t.lead[0]), zi(t.lead[1])))
    mk = lambda n, lead: out(ex, Tensor('opaque', lead, None, name='svd:' + n, args=(t,)), o)
    return (mk('U', [t.lead[0], m]), mk('S', [m]), mk('V', [t.lead[1], m]))


def h_diff(ex, a, k):
    o = ex.force(a[0])
    if isinstance(o, PTensor) and len(a) == 1 and not k and o.term.tail is None and len(o.term.lead) == 1:
        return tensor_binop(ex, 'Sub', X().get_item(ex, o, slice(1, None, None)), X().get_item(ex, o, slice(None, -1, None)))
    raise Unsupported('diff')


HANDLERS = {
    'numpy.diff': h_diff, 'torch.diff': h_diff,
    'torch.zeros': h_full(0), 'torch.ones': h_full(1), 'torch.zeros_like': h_full_like(0), 'torch.ones_like': h_full_like(1),
    'numpy.zeros_like': h_full_like(0), 'numpy.ones_like': h_full_like(1),
    'torch.empty': h_rand('uninit'), 'torch.randn': h_rand('randn'), 'torch.rand': h_rand('rand'), 'torch.randn_like': h_rand_like('randn'), 'torch.rand_like': h_rand_like('rand'),
    'torch.full': lambda ex, a, k: rgflag(ex, PTensor(tfull(term(ex, a[1] if len(a) > 1 else k['fill_value']), *shape_arg(ex, [a[0]]))), k),
    'torch.full_like': lambda ex, a, k: rgflag(ex, PTensor(tfull(term(ex, a[1] if len(a) > 1 else k['fill_value']), ex.force(a[0]).term.lead, ex.force(a[0]).term.tail)), k),
    'torch.tensor': h_tensor, 'torch.as_tensor': h_tensor, 'torch.Tensor': h_Tensor, 'torch.prod': h_prod, 'numpy.prod': h_prod, 'math.prod': h_prod, 'torch.Size': h_Size,
    'torch.cat': h_cat, 'torch.concat': h_cat, 'torch.stack': h_stack, 'torch.sum': h_sum(False), 'torch.mean': h_sum(True), 'numpy.sum': h_sum(False), 'numpy.mean': h_sum(True),
    'torch.matmul': lambda ex, a, k: matmul(ex, *(list(a) + [k[x] for x in ('input', 'other') if x in k])), 'torch.mm': lambda ex, a, k: matmul(ex, a[0], a[1]),
    'torch.nn.functional.linear': h_linear, 'torch.nn.functional.conv2d': h_conv2d, 'torch.conv2d': h_conv2d, 'torch.nn.functional.group_norm': h_group_norm, 'torch.nn.functional.pad': h_pad,
    'torch.exp': h_fn('exp'), 'torch.tanh': h_fn('tanh'), 'torch.sigmoid': h_fn('sigmoid'), 'torch.nn.functional.relu': h_fn('relu'), 'torch.sin': h_fn('sin'), 'torch.cos': h_fn('cos'),
    'torch.abs': h_fn('abs'), 'torch.sqrt': h_fn('sqrt'), 'torch.log': h_fn('log'), 'numpy.log2': h_fn('log2'), 'torch.log2': h_fn('log2'), 'math.log2': h_fn('log2'), 'numpy.sqrt': h_fn('sqrt'), 'numpy.exp': h_fn('exp'),
    'torch.nn.functional.softplus': h_fn('softplus'),
    'torch.utils.checkpoint.checkpoint': h_checkpoint, 'torch.norm': h_norm, 'torch.linspace': h_linspace, 'torch.arange': h_arange, 'numpy.array': h_nparray, 'numpy.asarray': h_nparray,
    'torch.transpose': lambda ex, a, k: transpose(ex, ex.force(a[0]), a[1], a[2]),
    'torch.reshape': lambda ex, a, k: view(ex, ex.force(a[0]), *shape_arg(ex, [a[1]])),
    'torch.unsqueeze': lambda ex, a, k: unsqueeze(ex, ex.force(a[0]), k.get('dim', a[1] if len(a) > 1 else None)),
    'torch.squeeze': lambda ex, a, k: squeeze(ex, ex.force(a[0]), k.get('dim', a[1] if len(a) > 1 else None)),
    'torch.flatten': lambda ex, a, k: view(ex, ex.force(a[0]), [-1], None),
    'torch.numel': lambda ex, a, k: ex.force(a[0]).term.numel(),
    'torch.is_tensor': lambda ex, a, k: isinstance(ex.force(a[0]), PTensor),
    'torch.where': h_where, 'numpy.where': h_where, 'torch.maximum': h_maximum(1), 'numpy.maximum': h_maximum(1), 'torch.minimum': h_maximum(-1), 'numpy.minimum': h_maximum(-1),
    'torch.clamp': h_clamp, 'torch.clip': h_clamp, 'numpy.clip': h_clamp, 'torch.svd': h_svd,
    'torch.mul': lambda ex, a, k: tensor_binop(ex, 'Mult', ex.force(a[0]), ex.force(a[1])), 'torch.add': lambda ex, a, k: tensor_binop(ex, 'Add', ex.force(a[0]), ex.force(a[1])),
    'torch.sub': lambda ex, a, k: tensor_binop(ex, 'Sub', ex.force(a[0]), ex.force(a[1])), 'torch.div': lambda ex, a, k: tensor_binop(ex, 'Div', ex.force(a[0]), ex.force(a[1])),
    'torch.pow': lambda ex, a, k: tensor_binop(ex, 'Pow', ex.force(a[0]), ex.force(a[1])), 'torch.neg': lambda ex, a, k: unary(ex, 'neg', ex.force(a[0])),
    'torch.manual_seed': lambda ex, a, k: None,
}
