"""Loops with a symbolic number of iterations: the loop invariant is inferred as a closed form of every modified location
and checked to be inductive (state(i) -> body(i) -> state(i+1)); a loop whose effect has no such form is Unsupported."""
import re
from .objs import *
from .terms import *
from . import sigma


class LoopFail(Exception):
    pass


DEBUG = False


def sym_for(ex, lo, hi, body, fr):
    lo, hi = simp(lo), simp(hi)
    if getattr(ex, 'for_inv', None) is not None:
        f, ex.for_inv = ex.for_inv, None
        return f(ex, lo, hi, body, fr)
    I = __import__('pyvc.interp', fromlist=['x'])
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
        for k in range(lo, hi):
            try:
                body(z3.IntVal(k))
            except I.BreakEx:
                return 'break'
        return None
    peeled = 0
    # inside of another loop the closed forms cover the loop without iterations as well (values of the last iteration
    # are unreadable then), so that all iterations of the outer loop have the same form
    lazy = bool(getattr(ex, 'loopidx', ())) and ex.ctx.decide(zi(hi) > zi(lo)) is None and ex.ctx.decide(zi(hi) >= zi(lo)) is True
    if not lazy and not ex.branch(simp(zi(hi) > zi(lo))):
        return None
    while True:
        snap = take(ex)
        try:
            return summarise(ex, lo, hi, body, I)
        except LoopFail as e:
            why = str(e)
            put(ex, snap)
        if DEBUG:
            print('loop failed:', why)
        if lazy:
            lazy = False
            if not ex.branch(simp(zi(hi) > zi(lo))):
                return None
            continue
        if peeled >= 2:
            raise Unsupported('loop: ' + why)
        peeled += 1
        try:
            body(zi(lo))
        except I.BreakEx:
            return 'break'
        lo = simp(zi(lo) + 1)
        if not ex.branch(simp(zi(hi) > zi(lo))):
            return None


# ------------------------------------------------------------------ snapshots

def take(ex):
    from . import sigma
    return (ex.snapshot(), [(m, dict(m.vars)) for m in ex.modules.values()], ex.fresh, Heap.ctr, Fam.ctr, ex.grad_names, dict(sigma.LEAFDEFS), ex.hookids, dict(ex.rank))


def put(ex, s):
    from . import sigma
    ex.restore(s[0])
    for m, v in s[1]:
        m.vars.clear()
        m.vars.update(v)
    ex.fresh = s[2]
    Heap.ctr = s[3]
    ex.grad_names = s[5]
    sigma.LEAFDEFS.clear()
    sigma.LEAFDEFS.update(s[6])
    ex.hookids = s[7]
    ex.rank = dict(s[8])


def state_of(ex, n0):
    """location -> value for everything that existed before the loop (objects up to oid n0)"""
    st = {}
    for fi, f in enumerate(ex.frames):
        for k, v in f.vars.items():
            st[('var', fi, k)] = v
    for m in ex.modules.values():
        for k, v in m.vars.items():
            st[('glob', m.name, k)] = v
    for o in Heap.objs:
        if o.oid > n0:
            continue
        if isinstance(o, PInst):
            for k, v in o.attrs.items():
                st[('attr', o.oid, k)] = v
        elif isinstance(o, PList):
            st[('list', o.oid)] = list(o.segs)
        elif isinstance(o, PDict):
            st[('dict', o.oid)] = list(o.ents)
        elif isinstance(o, PTensor):
            st[('tens', o.oid)] = o.term
            st[('flags', o.oid)] = dict(o.flags)
        elif isinstance(o, IntVec):
            st[('ivec', o.oid)] = list(o.vals)
        else:
            for f in o._fields:
                st[('field', o.oid, f)] = getattr(o, f)
    return st


def objs_by_id(n0):
    return dict((o.oid, o) for o in Heap.objs if o.oid <= n0)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
        return type(a) is type(b) and a == b
    try:
        return vkey(a) == vkey(b)
    except Exception:
        return False


_kn = re.compile(r'k!\d+')


def norm(s):
    m = {}

    def f(x):
        return m.setdefault(x.group(0), 'k#%d' % len(m))
    return _kn.sub(f, s)


# ------------------------------------------------------------------ values depending on the loop index

class Abs(object):
    """turns values of iteration i into values parametric in i: objects allocated in the iteration become families"""

    def __init__(self, ex, i, n0, f0):
        self.ex, self.i, self.n0, self.f0 = ex, i, n0, f0
        self.memo = {}
        self.lift = {}

    def plain(self, o):
        return isinstance(o, PTensor) and not any(o.flags.get(k) for k in ('param', 'np')) and 'requires_grad' not in o.flags and 'cond' not in o.flags

    def val(self, v):
        if v is None or isinstance(v, (bool, int, str, Fraction, float, Expr, Tensor, ShapeVal)) or is_z3(v):
            return v
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, Poison):
            return v
        if isinstance(v, FamRef):
            return self.ref(v)
        if isinstance(v, PObj):
            fr = getattr(v, 'famref', None)
            if fr is not None and v.oid > self.n0:
                return self.ref(fr)
            if v.oid <= self.n0:
                return v
            if self.plain(v):
                return v.term
            if v.oid in self.memo:
                return FamRef(self.memo[v.oid], [self.i])
            t = type(v).__new__(type(v))
            fam = Fam(t, [self.i])
            self.memo[v.oid] = fam
            for k, x in v.__dict__.items():
                if k in ('oid', 'famref', 'dirty0'):
                    continue
                t.__dict__[k] = self.field(x)
            t.oid = -1
            return FamRef(fam, [self.i])
        if isinstance(v, Opt):
            return Opt(v.isnone, self.val(v.val))
        if isinstance(v, SStr):
            return v
        if isinstance(v, Seg):
            return Seg(v.lo, v.hi, v.ivar, self.val(v.body))
        if isinstance(v, Flat):
            return Flat(v.lo, v.hi, v.ivar, [self.val(x) for x in v.inner])
        if isinstance(v, Item):
            return Item(self.val(v.v))
        if isinstance(v, Ent):
            return Ent(self.val(v.k), self.val(v.v))
        if isinstance(v, Grp):
            return Grp(v.lo, v.hi, v.ivar, self.val(v.key), self.val(v.val), v.mix)
        if isinstance(v, SymTuple):
            return SymTuple([self.val(s) for s in v.segs])
        if isinstance(v, BM):
            return BM(v.func, self.val(v.self_), v.cls)
        if isinstance(v, list):
            return [self.val(x) for x in v]
        return v

    def field(self, x):
        if isinstance(x, list):
            return [self.field(y) for y in x]
        if isinstance(x, dict):
            return dict((k, self.field(y)) for k, y in x.items())
        return self.val(x)

    def ref(self, r):
        if r.fam.fid <= self.f0:
            return r
        if r.fam.fid not in self.lift:
            t0 = r.fam.template
            t = type(t0).__new__(type(t0))
            fam = Fam(t, [self.i] + list(r.fam.ivars))
            self.lift[r.fam.fid] = fam
            for k, x in t0.__dict__.items():
                if k in ('oid', 'famref', 'dirty0'):
                    continue
                t.__dict__[k] = self.field(x)
            t.oid = -1
        return FamRef(self.lift[r.fam.fid], [self.i] + list(r.idx))


def skey(v, n0, f0, memo):
    """key of a value in which objects allocated after n0 / families made after f0 are expanded"""
    K = lambda x: skey(x, n0, f0, memo)
    if isinstance(v, Poison):
        return 'unreadable'
    if isinstance(v, PObj):
        fr = getattr(v, 'famref', None)
        if fr is not None and v.oid > n0:
            return K(fr)
        if v.oid <= n0:
            return 'obj%d' % v.oid
        if v.oid in memo:
            return 'new%d' % memo[v.oid]
        memo[v.oid] = len(memo)
        if isinstance(v, PTensor):
            fl = dict((k, x) for k, x in v.flags.items() if k not in ('base', 'shared'))
            return 'T(%s|%s)' % (v.term.key(), K(fl) if fl else '')
        return '%s%d{%s}' % (type(v).__name__, memo[v.oid], ';'.join('%s=%s' % (f, K(getattr(v, f))) for f in v._fields))
    if isinstance(v, FamRef):
        if v.fam.fid <= f0:
            return v.key()
        m = ('f', v.fam.fid)
        if m in memo:
            return 'fam%d%s' % (memo[m], akey(v.idx))
        memo[m] = len(memo)
        t = v.fam.template
        return 'Fam%d[%s]{%s}%s' % (memo[m], ','.join(str(x) for x in v.fam.ivars), ';'.join('%s=%s' % (f, K(getattr(t, f))) for f in t._fields), akey(v.idx))
    if isinstance(v, tuple):
        return '(' + ','.join(K(x) for x in v) + ')'
    if isinstance(v, list):
        return '[' + ','.join(K(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (vkey(k), K(x)) for k, x in v.items()) + '}'
    if isinstance(v, Item):
        return 'I' + K(v.v)
    if isinstance(v, Seg):
        return 'Seg[%s,%s)%s.%s' % (vkey(v.lo), vkey(v.hi), v.ivar, K(v.body))
    if isinstance(v, Flat):
        return 'Flat[%s,%s)%s.%s' % (vkey(v.lo), vkey(v.hi), v.ivar, [K(x) for x in v.inner])
    if isinstance(v, Ent):
        return 'E%s:%s' % (K(v.k), K(v.v))
    if isinstance(v, Grp):
        return 'G[%s,%s)%s.%s:%s' % (vkey(v.lo), vkey(v.hi), v.ivar, K(v.key), K(v.val))
    if isinstance(v, SymTuple):
        return 'ST' + str([K(s) for s in v.segs])
    if isinstance(v, Opt):
        return 'opt(%s,%s)' % (vkey(v.isnone), K(v.val))
    if isinstance(v, BM):
        return 'BM%s.%s' % (id(v.func), K(v.self_))
    return vkey(v)


# ------------------------------------------------------------------ accumulators

def ew_terms(t):
    """additive decomposition of a tensor term: list of (sign, term or Expr)"""
    if isinstance(t, Tensor) and t.op == 'ew' and t.kw['f'] in ('add', 'sub') and len(t.kw['args']) == 2:
        a, b = t.kw['args']
        r = []
        for s, x in ((1, a), (1 if t.kw['f'] == 'add' else -1, b)):
            r += [(s * q, y) for q, y in ew_terms(x)]
        return r
    return [(1, t)]


def tkey(x):
    return norm(x.key() if isinstance(x, (Tensor, Expr)) else vkey(x))


def as_term(v):
    if isinstance(v, PTensor):
        return v.term
    if isinstance(v, Tensor):
        return v
    return None


def isnum(v):
    return isinstance(v, (int, Fraction, Expr)) and not isinstance(v, bool) or isinstance(v, z3.ArithRef)


def extract_acc(ex, old, new):
    """new = old (+) delta: ('int', c) | ('real', e) | ('sum', term) | ('cat', dim, [terms]) | None"""
    if same(old, new):
        return ('const',)
    from . import tensor as T
    from . import ext
    tn = as_term(new)
    to = as_term(old)
    if tn is not None:
        if to is not None and tn.op == 'store' and tkey(tn.kw['t']) == tkey(to):
            return ('store', tn.kw['spec'], tn.kw['val'], tn.kw['vmap'])
        if tn.op == 'cat' and to is not None:
            op = list(to.kw['parts']) if to.op == 'cat' and to.kw['dim'] == tn.kw['dim'] else [to]
            parts = list(tn.kw['parts'])
            if len(parts) > len(op) and all(tkey(a) == tkey(b) for a, b in zip(op, parts)):
                return ('cat', tn.kw['dim'], parts[len(op):])
        ts = ew_terms(tn)
        ok = None
        target = tkey(to) if to is not None else (tkey(num(old)) if isnum(old) else None)
        if target is None:
            return None
        osum = ew_terms(to) if to is not None else [(1, num(old))]
        rest = list(ts)
        for q, y in osum:
            for k, (s, x) in enumerate(rest):
                if s == q and tkey(x) == tkey(y):
                    rest.pop(k)
                    break
            else:
                return None
        if not rest:
            return None
        acc = None
        for s, x in rest:
            if acc is None:
                acc = x if s > 0 else (T.ew(ex, 'neg', [x]) if isinstance(x, Tensor) else neg(x))
            else:
                acc = T.ew(ex, 'add' if s > 0 else 'sub', [acc, x])
        if not isinstance(acc, Tensor):
            acc = tfull(acc, [])
        return ('sum', acc)
    if isnum(old) and isnum(new):
        if ext.is_int(old) and ext.is_int(new):
            return ('int', simp(zi(new) - zi(old)))
        d = sigma.from_poly(sigma.to_poly(sub(num(new), num(old)), ex.ctx))
        return ('real', d)
    if isinstance(old, (str, SStr)) and isinstance(new, SStr):
        return None
    return None


def at_acc(ex, i, lo, upto, init, d):
    """closed form of an accumulator at the start of iteration `upto`"""
    from . import tensor as T
    k = d[0]
    if k == 'const':
        return init
    n = simp(zi(upto) - zi(lo))
    if k == 'int':
        with ex.ctx.assume(i >= zi(lo)):
            nn = PS.syn_nonneg(zi(d[1])) or ex.ctx.check(zi(d[1]) < 0) == z3.unsat
        f = PS.get(i, zi(d[1]), nonneg=nn)
        return simp(zi(init) + zi(f(upto)) - zi(f(lo)))
    if k == 'real':
        j = fresh_bound()
        return add(num(init), esum(j, n, esubst(d[1], [(i, zi(lo) + j)])))
    if k == 'sum':
        j = z3.Int('sq!%s' % i)
        b = tsubst(d[1], [(i, simp_z(zi(lo) + j))])
        if any_mention(b.lead, j):
            raise LoopFail('sum of tensors of varying shape')
        s = Tensor('sumseq', b.lead, b.tail, n=n, ivar=j, body=b)
        it = as_term(init)
        if it is None:
            it = num(init)
        return PTensor(T.ew(ex, 'add', [it, s]))
    if k == 'cat':
        dim = d[1]
        parts = d[2]
        if len(parts) > 1:
            lead = list(parts[0].lead)
            tot = 0
            for p in parts:
                tot = simp(zi(tot) + zi(p.lead[dim]))
            lead[dim] = tot
            b = Tensor('cat', lead, parts[0].tail, parts=tuple(parts), dim=dim)
        else:
            b = parts[0]
        j = z3.Int('sq!%s' % i)
        b = tsubst(b, [(i, simp_z(zi(lo) + j))])
        f = PS.get(j, zi(b.lead[dim]))
        lead = list(b.lead)
        if any_mention([x for q, x in enumerate(lead) if q != dim], j):
            raise LoopFail('concatenation of varying shapes')
        lead[dim] = simp(f(n))
        s = Tensor('catseq', lead, b.tail, dim=dim, n=n, ivar=j, body=b)
        it = as_term(init)
        lead2 = list(lead)
        lead2[dim] = simp(zi(it.lead[dim]) + zi(lead[dim]))
        return PTensor(T.mkcat([it, s], dim, lead2, it.tail))
    if k == 'store':
        it = as_term(init)
        spec, val, vmap = d[1], d[2], d[3]
        # exactly one dimension indexed by the loop variable, the others complete
        hit = [q for q, sp in enumerate(spec) if sp[0] == 'i' and zi(sp[1]).eq(i)]
        if len(hit) != 1 or any(sp[0] == 'i' and q not in hit for q, sp in enumerate(spec)):
            raise LoopFail('stores that are not indexed by the loop variable')
        for q, sp in enumerate(spec):
            if sp[0] != 'i' and not (simp(sp[1]) == 0 and same_dim(sp[2], it.lead[q])):
                raise LoopFail('partial store')
        j = z3.Int('sq!%s' % i)
        return PTensor(Tensor('storeseq', it.lead, it.tail, t=it, dim=hit[0], lo=simp(lo), hi=simp(upto), ivar=j, val=tsubst(val, [(i, j)]), vmap=vmap))
    raise LoopFail('accumulator')


def simp_z(t):
    return z3.simplify(t, som=True)


def any_mention(dims, j):
    return any(is_z3(x) and any(c.eq(j) for c in free_consts(x)) for x in dims)


def akeyd(d, i):
    if d is None:
        return 'none'
    return norm(repr([x.key() if isinstance(x, (Tensor, Expr)) else vkey(x) if not isinstance(x, (list, tuple)) else [y.key() if isinstance(y, Tensor) else str(y) for y in x] for x in d]))


# ------------------------------------------------------------------ the summary

SCALAR = ('var', 'attr', 'glob', 'tens', 'field')


class Delta(object):
    def __init__(self, kind, key, **kw):
        self.kind, self.key = kind, key
        self.__dict__.update(kw)


def get_loc(ex, loc, objs):
    if loc[0] == 'var':
        return ex.frames[loc[1]].vars
    if loc[0] == 'glob':
        return ex.modules[loc[1]].vars
    return objs[loc[1]]


def summarise(ex, lo, hi, body, I):
    i = ex.fresh_int('li')
    base = take(ex)
    n0, f0 = Heap.ctr, Fam.ctr
    S0 = state_of(ex, n0)
    forced = set()
    D = {}
    hoists = 0
    rounds = 0
    guess = True
    while True:
        rounds += 1
        if rounds > 12:
            raise LoopFail('no stable summary')
        g = int(guess)
        ex.guess += g
        try:
            oks, exits = run(ex, base, S0, D, forced, lo, i, body, I, n0, f0, hi)
        except ReadPoison as e:
            loc = e.p.loc
            if loc is not None and isinstance(S0.get(loc), Poison) and S0[loc] is e.p:
                put(ex, base)
                raise          # a value carried by an enclosing loop
            if loc is None or loc in forced:
                raise LoopFail('reads a value carried between iterations (%s)' % e.p.why)
            forced.add(loc)
            D.pop(loc, None)
            guess = True
            continue
        finally:
            ex.guess -= g
        if DEBUG:
            print('run', str(i), 'guess', guess, len(oks), 'oks', [[str(c)[:60] for c in e] for e in exits][:4])
        if not oks and guess:
            guess = False
            continue
        if not oks:
            # every iteration leaves the loop
            put(ex, base)
            body(zi(lo))
            raise LoopFail('inconsistent exit')
        # conditions that do not depend on the iteration are decided outside of the loop
        if len(oks) > 1 and len(set(k for _, k, _ in oks)) > 1 or exits:
            c = hoistable(oks, exits, i, base[2])
            if c is not None:
                put(ex, base)
                ex.branch(c)
                hoists += 1
                if hoists > 8:
                    raise LoopFail('too many conditions')
                rounds -= 1
                continue
        if len(set(k for _, k, _ in oks)) > 1:
            m = merge_kinds(ex, oks, i, base[2])
            if m is not None:
                oks = [([], '', m)]
        if len(set(k for _, k, _ in oks)) > 1:
            raise LoopFail('iterations of different kind: %s' % ' | '.join(str([str(c)[:80] for c in cs]) for cs, _, _ in oks))
        Dn = oks[0][2]
        same_set = set(Dn) == set(D) and all(Dn[l].key == D[l].key and Dn[l].kind == D[l].kind for l in D)
        if DEBUG:
            print('round', rounds, {l: (d.kind, d.key[:300]) for l, d in Dn.items()}, 'stable' if same_set else '')
        if same_set and not guess:
            break
        # a summary found with optimistic assumptions has to be confirmed without them
        # (a summary that changes in that round is looked for without them from then on)
        guess = guess and not same_set
        D = Dn
    put(ex, base)
    # exits
    if exits:
        conds = []
        approx = False
        for cs in exits:
            c = z3.And(*cs) if len(cs) != 1 else cs[0]
            if not cs:
                c = z3.BoolVal(True)
            if any(fresh_no(v) > base[2] and not v.eq(i) for v in free_consts(c)):
                approx = True
                continue
            conds.append(c)
        if approx:
            ex.approx = True
        ex.fresh += 1
        b = z3.Bool('exit!%d' % ex.fresh)

        def noexit(t):
            return z3.And(*[z3.Not(z3.substitute(c, (i, t))) for c in conds])
        if ex.branch(b):
            i0 = ex.fresh_int('ex')
            ex.ctx.stack.append(z3.And(i0 >= zi(lo), i0 < zi(hi)))
            ex.ctx.index.append(i0)
            if conds:
                ex.ctx.foralls.append((zi(lo), i0, i, noexit))
            apply(ex, S0, D, forced, lo, i, i0, True, n0, hi)
            try:
                body(i0)
            except I.BreakEx:
                return 'break'
            raise Infeasible()
        if conds:
            ex.ctx.foralls.append((zi(lo), zi(hi), i, noexit))
    apply(ex, S0, D, forced, lo, i, zi(hi), True, n0, hi)
    return None


_fr = re.compile(r'!(\d+)$')


def fresh_no(v):
    m = _fr.search(v.decl().name())
    return int(m.group(1)) if m else -1


def hoistable(oks, exits, i, fresh0):
    for cs in [o[0] for o in oks] + exits:
        for c in cs:
            if any(v.eq(i) or fresh_no(v) > fresh0 for v in free_consts(c)):
                continue
            return c
    return None


def merge_kinds(ex, oks, i, fresh0):
    """iterations that differ in what they add to accumulators only: the added amount depends on the condition"""
    conds = []
    for cs, _, _ in oks:
        if any(fresh_no(v) > fresh0 and not v.eq(i) for c in cs for v in free_consts(c)):
            return None
        conds.append(z3.simplify(z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in cs])))
    out = {}
    for l in sorted(set(l for _, _, d in oks for l in d), key=str):
        ds = [d.get(l) for _, _, d in oks]
        if all(d is not None for d in ds) and len(set((d.kind, d.key) for d in ds)) == 1:
            out[l] = ds[0]
            continue
        if all(d is None or d.kind == 'acc' and d.d[0] in ('const', 'int', 'real') for d in ds):
            amt = [0 if d is None or d.d[0] == 'const' else d.d[1] for d in ds]
            if all(d is None or d.d[0] != 'real' for d in ds):
                r = zi(amt[-1])
                for c, a in list(zip(conds, amt))[-2::-1]:
                    r = z3.If(c, zi(a), r)
                d = ('int', simp(r))
            else:
                d = ('real', add(*[mul(Expr('ind', c), num(a)) for c, a in zip(conds, amt)]))
            out[l] = Delta('acc', akeyd(d, i), d=d)
        elif l[0] in ('var',) and all(d is None or d.kind == 'last' for d in ds):
            out[l] = Delta('lost', 'lost')
        else:
            return None
    return out


def run(ex, base, S0, D, forced, lo, i, body, I, n0, f0, hi):
    oks, exits = [], []
    ns = len(ex.ctx.stack)
    ni = len(ex.ctx.index)
    ex.ctx.stack += [i >= zi(lo), i < zi(hi)]
    ex.ctx.index.append(i)
    old_idx = getattr(ex, 'loopidx', ())
    depth = ex.depth
    try:
        def fn():
            put(ex, base)
            ex.depth = depth
            ex.loopidx = old_idx + (i,)
            apply(ex, S0, D, forced, lo, i, i, False, n0, hi)
            fn.n1 = Heap.ctr
            fn.start = state_of(ex, n0)
            try:
                body(i)
            except I.BreakEx:
                return 'break'
            except I.ReturnEx:
                return 'return'
            return 'ok'

        def cb(conds, out):
            if ex.ctx.infeasible():
                return
            if out[0] == 'raise' or out[1] != 'ok':
                exits.append(list(conds))
                return
            d = deltas(ex, S0, fn.start, forced, i, n0, f0, lo, hi)
            oks.append((list(conds), '\n'.join('%s %s %s' % (l, x.kind, x.key) for l, x in sorted(d.items(), key=lambda y: str(y[0]))), d))
        ex.explore(fn, cb)
    finally:
        del ex.ctx.stack[ns:]
        del ex.ctx.index[ni:]
        ex.loopidx = old_idx
        ex.depth = depth
    return oks, exits


def deltas(ex, S0, start, forced, i, n0, f0, lo, hi):
    end = state_of(ex, n0)
    # families instantiated in the iteration must be unmodified
    for o in Heap.objs:
        if getattr(o, 'famref', None) is not None and getattr(o, 'dirty0', None) is not None and o.oid > n0:
            if vkey([getattr(o, f) for f in o._fields]) != o.dirty0:
                raise LoopFail('modifies a member of a family of objects')
    A = Abs(ex, i, n0, f0)
    out = {}
    for l in list(start):
        if l not in end:
            if l[0] == 'var':
                raise LoopFail('deletes a variable')
            raise LoopFail('deletes %s' % (l,))
    for l, new in end.items():
        old = start.get(l, None)
        if l in start and (old is new or same(old, new)):
            if isinstance(old, Poison):
                # modified in some other round only
                continue
            if l in forced and l in S0:
                out[l] = Delta('acc', 'const', d=('const',))
            continue
        if l[0] in SCALAR:
            if l in forced:
                d = extract_acc(ex, old, new)
                if d is None:
                    raise LoopFail('value of %s carried between iterations has no closed form' % (l,))
                out[l] = Delta('acc', akeyd(d, i), d=d)
            elif l[0] == 'tens':
                d = extract_acc(ex, old, new)
                if d is None:
                    raise LoopFail('in-place modification of a tensor')
                out[l] = Delta('acc', akeyd(d, i), d=d)
            else:
                out[l] = Delta('last', norm(skey(new, n0, f0, {})), v=A.val(new))
        elif l[0] == 'list':
            pre = old
            if len(new) < len(pre) or not all(same(a, b) for a, b in zip(pre, new)):
                d = list_update(ex, pre, new, i)
                if d is None:
                    raise LoopFail('list modified other than by appending')
                out[l] = Delta('lset', norm(skey(d[1], n0, f0, {})) + str(d[0]), v=A.val(d[1]), pos=d[0])
                continue
            app = new[len(pre):]
            out[l] = Delta('append', norm(skey(app, n0, f0, {})), v=[A.val(x) for x in app])
        elif l[0] == 'dict':
            out[l] = dict_delta(ex, A, S0.get(l), old, new, i, n0, f0, lo, hi)
        elif l[0] == 'flags':
            a = dict((k, x) for k, x in old.items() if k not in ('shared',))
            b = dict((k, x) for k, x in new.items() if k not in ('shared',))
            if not same(a, b):
                out[l] = Delta('last', norm(skey(new, n0, f0, {})), v=new)
        else:
            raise LoopFail('modifies %s' % (l,))
    return out


def PTensor_(t):
    if not isinstance(t, Tensor):
        return t
    o = PTensor.__new__(PTensor)
    o.term = t
    o.flags = {}
    o.oid = -1
    return o


def list_update(ex, old, new, i):
    """[Seg(lo,hi)] -> [Seg(lo,i), Item(v), Seg(i+1,hi)]"""
    return None


def dict_delta(ex, A, s0, old, new, i, n0, f0, lo, hi):
    """additions at the end, changes of entries, element-wise changes of a group"""
    K = lambda v: norm(skey(v, n0, f0, {}))
    if len(new) >= len(old) and all(same(a, b) for a, b in zip(old, new)):
        add_ = new[len(old):]
        if len(add_) != 1:
            if not add_ or not all(isinstance(e, Ent) for e in add_):
                raise LoopFail('several new keys per iteration')
            return Delta('daddn', '|'.join(K(e) for e in add_), kv=[(A.val(e.k), A.val(e.v)) for e in add_])
        e = add_[0]
        if isinstance(e, Ent):
            return Delta('dadd', K(e), k=A.val(e.k), v=A.val(e.v))
        raise LoopFail('group of keys added per iteration')
    # update of the i-th member of a group:  G[lo,hi) -> G[lo,i) E(i) G[i+1,hi)
    upd = None
    j = 0
    res = []
    k = 0
    while k < len(new) and j < len(old):
        a, b = old[j], new[k]
        if same(a, b):
            res.append(('=',))
            j += 1
            k += 1
            continue
        if isinstance(a, Ent) and isinstance(b, Ent) and same(a.k, b.k):
            res.append(('ent', j, a, b))
            j += 1
            k += 1
            continue
        if isinstance(a, Grp) and isinstance(b, Grp) and k + 2 < len(new) and isinstance(new[k + 1], Ent) and isinstance(new[k + 2], Grp) and same_dim(a.lo, b.lo) and same_dim(a.hi, new[k + 2].hi) and same(a.key, b.key) and same(a.val, b.val):
            res.append(('gupd', j, a, new[k + 1], b.hi))
            j += 1
            k += 3
            continue
        if isinstance(a, Grp) and isinstance(b, Grp) and same_dim(a.lo, b.lo) and same_dim(a.hi, b.hi):
            kb = vsub(b.key, [(b.ivar, a.ivar)])
            if same(a.key, kb):
                res.append(('gval', j, a, Grp(b.lo, b.hi, a.ivar, kb, vsub(b.val, [(b.ivar, a.ivar)]), b.mix)))
                j += 1
                k += 1
                continue
        # two adjacent groups with the same values in the updated part (start of a gupd): [G(lo,i) new][G(i,hi) old]
        raise LoopFail('dictionary modified in an unsupported way')
    if k < len(new) or j < len(old):
        raise LoopFail('dictionary modified in an unsupported way')
    ch = [r for r in res if r[0] != '=']
    if len(ch) == 1 and ch[0][0] == 'gupd':
        _, j, g, e, pos = ch[0]
        if not zi(pos).eq(i):
            # the group may already be split at i: [new | old]
            raise LoopFail('group update at another index')
        return Delta('gupd', K(e), j=j if s0 is None else [q for q, x in enumerate(s0) if isinstance(x, Grp) and same(x.key, g.key)][0], k=A.val(e.k), v=A.val(e.v), key_=None)
    parts = []
    key = ''
    for r in ch:
        if r[0] == 'ent':
            d = extract_acc(ex, r[2].v, r[3].v)
            if d is None:
                raise LoopFail('dictionary entry overwritten')
            parts.append(('ent', r[1], d))
            key += 'ent%d%s' % (r[1], akeyd(d, i))
        elif r[0] == 'gval':
            d = extract_acc(ex, r[2].val, r[3].val)
            if d is None:
                raise LoopFail('values of a group of keys have no closed form')
            parts.append(('gval', r[1], d))
            key += 'gval%d%s' % (r[1], akeyd(d, i).replace(str(r[2].ivar), '#g'))
        else:
            raise LoopFail('mixed dictionary update')
    return Delta('dacc', key, parts=parts)


def unb(v):
    return v.term if isinstance(v, PTensor) else v


def apply(ex, S0, D, forced, lo, i, upto, final, n0, hi):
    """state at the start of iteration `upto` (final: after the loop, upto >= lo+1 unless an exit index)"""
    objs = objs_by_id(n0)
    pairs = [(i, simp_z(zi(upto) - 1))]
    for l, d in D.items():
        if d.kind == 'lost':
            ex.frames[l[1]].vars[l[2]] = Poison('assigned in some iterations of the loop only', None if final else l)
            continue
        if d.kind == 'last':
            if final:
                v = vsub(d.v, pairs) if not isinstance(d.v, dict) else d.v
                # after an exit at the very first iteration the old value is still there: unknown which, so unreadable
                if not upto_gt(ex, upto, lo):
                    v = Poison('value of the last iteration before an exit', l)
            else:
                v = Poison('assigned in the loop', l)
            if l[0] == 'var':
                ex.frames[l[1]].vars[l[2]] = v
            elif l[0] == 'glob':
                ex.modules[l[1]].vars[l[2]] = v
            elif l[0] == 'attr':
                o = objs[l[1]]
                at = dict(o.attrs)
                at[l[2]] = v
                o.attrs = at
            elif l[0] == 'flags':
                objs[l[1]].flags = dict(d.v)
            else:
                raise LoopFail('assignment to %s' % (l,))
        elif d.kind == 'acc':
            init = S0.get(l)
            v = at_acc(ex, i, lo, upto, init, d.d)
            if l[0] == 'var':
                ex.frames[l[1]].vars[l[2]] = v
            elif l[0] == 'glob':
                ex.modules[l[1]].vars[l[2]] = v
            elif l[0] == 'attr':
                o = objs[l[1]]
                at = dict(o.attrs)
                at[l[2]] = v
                o.attrs = at
            elif l[0] == 'tens':
                objs[l[1]].term = as_term(v)
            else:
                raise LoopFail('accumulation in %s' % (l,))
        elif d.kind == 'append':
            j = ex.fresh_int('lj')
            inner = [vsub(x, [(i, j)]) for x in d.v]
            if len(inner) == 1 and isinstance(inner[0], Item):
                seg = [Seg(lo, upto, j, inner[0].v)]
            elif not inner:
                seg = []
            else:
                seg = [Flat(lo, upto, j, inner)]
            objs[l[1]].segs = merge_seg(list(S0[l]), seg)
        elif d.kind == 'dadd':
            j = ex.fresh_int('lj')
            g = Grp(lo, upto, j, vsub(d.k, [(i, j)]), vsub(d.v, [(i, j)]))
            objs[l[1]].ents = merge_grp(list(S0[l]), g)
        elif d.kind == 'daddn':
            ents = list(S0[l])
            for k_, v_ in d.kv:
                j = ex.fresh_int('lj')
                ents.append(Grp(lo, upto, j, vsub(k_, [(i, j)]), vsub(v_, [(i, j)]), True))
            objs[l[1]].ents = ents
        elif d.kind == 'gupd':
            ents = list(S0[l])
            g = ents[d.j]
            if not same_dim(g.lo, lo):
                raise LoopFail('group update that does not start at the first key')
            j = ex.fresh_int('lj')
            new = [Grp(lo, upto, j, vsub(d.k, [(i, j)]), vsub(d.v, [(i, j)]), g.mix)]
            if not (final and same_dim(upto, g.hi)):
                new.append(Grp(upto, g.hi, g.ivar, g.key, g.val, g.mix))
            objs[l[1]].ents = ents[:d.j] + new + ents[d.j + 1:]
        elif d.kind == 'dacc':
            ents = list(S0[l])
            for kind, j, dd in d.parts:
                e = ents[j]
                if kind == 'ent':
                    ents[j] = Ent(e.k, unb(at_acc(ex, i, lo, upto, e.v, dd)))
                else:
                    ents[j] = Grp(e.lo, e.hi, e.ivar, e.key, unb(at_acc(ex, i, lo, upto, e.val, dd)), e.mix)
            objs[l[1]].ents = ents
        else:
            raise LoopFail('delta ' + d.kind)


def upto_gt(ex, upto, lo):
    return ex.ctx.decide(zi(upto) > zi(lo)) is True


def merge_seg(pre, seg):
    return pre + seg


def merge_grp(pre, g):
    """an entry in front that continues the group downwards is merged into it"""
    return pre + [g]


def do_while(ex, st, fr):
    I = __import__('pyvc.interp', fromlist=['x'])
    if getattr(ex, 'while_inv', None) is not None:
        f, ex.while_inv = ex.while_inv, None
        return f(ex, st, fr)
    n = 0
    while True:
        snap = take(ex)
        ns = len(ex.ctx.stack)
        c = ex.boolval(ex.ev(st.test, fr))
        d = ex.ctx.decide(c) if not isinstance(c, bool) else c
        if d is None:
            put(ex, snap)
            del ex.ctx.stack[ns:]
            return sym_while(ex, st, fr, I)
        if not d:
            break
        n += 1
        if n > 200:
            raise Unsupported('while loop')
        try:
            ex.block(st.body, fr)
        except I.BreakEx:
            return
        except I.ContinueEx:
            continue
    ex.block(st.orelse, fr)


def as_z(v):
    """number, or tensor with one element -> (kind, z3 term)"""
    from . import ext
    if isinstance(v, bool) or is_zbool(v):
        return None
    if isinstance(v, int) or is_zint(v):
        return ('int', zi(v))
    if isinstance(v, (Fraction, z3.ArithRef)):
        return ('real', ext.zr(v))
    if isinstance(v, PTensor) and not v.term.lead and v.term.tail is None:
        z = ext.expr_to_z3(sigma.simplify_expr(sigma.elem(v.term, [])))
        return ('tens', z) if z is not None else None
    return None


def sym_while(ex, st, fr, I):
    """loop with a symbolic condition: the modified numbers are replaced by arbitrary ones that satisfy an invariant, the largest
    inductive subset of a set of candidate formulas (bounds of and comparisons with the numbers and sequences in sight).
    Every iteration moves some bounded integer in one direction, so the loop ends."""
    base = take(ex)
    n0 = Heap.ctr
    S0 = state_of(ex, n0)
    ns, ni = len(ex.ctx.stack), len(ex.ctx.index)
    depth = ex.depth
    locs = {}           # location -> (kind, fresh constant)

    def havoc():
        for l, (k, h) in locs.items():
            v = h if k != 'tens' else PTensor(Tensor('full', [], None, value=Expr('real', h)))
            set_loc(ex, l, v, n0)

    tests = []

    def holds(f):
        f = z3.simplify(f)
        return z3.is_true(f) or not z3.is_false(f) and ex.ctx.check(z3.Not(f)) == z3.unsat

    def step(invs, cb):
        """one iteration from an arbitrary state with the invariants"""
        def fn():
            put(ex, base)
            ex.depth = depth
            havoc()
            ex.ctx.stack += invs
            c = ex.boolval(ex.ev(st.test, fr))
            tests.append(c)
            if not ex.branch(c):
                return 'end'
            try:
                ex.block(st.body, fr)
            except I.BreakEx:
                return 'break'
            except I.ContinueEx:
                pass
            except I.ReturnEx:
                return 'return'
            return 'ok'

        def cb2(conds, out):
            if out[0] == 'ok' and out[1] == 'ok' and not ex.ctx.infeasible():
                cb(state_of(ex, n0))
        try:
            ex.explore(fn, cb2)
        finally:
            put(ex, base)
            ex.depth = depth
            del ex.ctx.stack[ns:]
            del ex.ctx.index[ni:]

    # modified locations
    for _ in range(6):
        new = {}

        def find(end):
            for l, v in end.items():
                old = S0.get(l)
                if l in locs or l in S0 and (old is v or same(old, v)):
                    continue
                if l not in S0 and l[0] == 'var':
                    continue        # first assigned in the loop: reading it before is an error of the loop
                z = as_z(v)
                z0 = as_z(old) if old is not None else None
                if l[0] not in ('var', 'attr', 'glob') or z is None or z0 is None or z[0] != z0[0]:
                    raise Unsupported('while loop modifies %s' % (l,))
                new[l] = z[0]
        step([], find)
        if not new:
            break
        for l, k in new.items():
            ex.fresh += 1
            locs[l] = (k, z3.Int('wh!%d' % ex.fresh) if k == 'int' else z3.Real('wh!%d' % ex.fresh))
        base = (base[0], base[1], ex.fresh) + base[3:]
    else:
        raise Unsupported('while loop: modified locations')
    if not any(k == 'int' for k, _ in locs.values()):
        raise Unsupported('while loop without an integer counter')
    entry = dict((h, as_z(S0[l])[1]) for l, (k, h) in locs.items())
    sub = lambda f, vals: z3.substitute(f, *[(h, v) for h, v in vals.items()])
    cands = candidates(ex, list(locs.values()), entry, [c for c in tests if is_z3(c)][-3:])
    cands = [f for f in cands if holds(sub(f, entry))]
    while True:
        bad = set()
        moves = []

        def check(end):
            vals = {}
            for l, (k, h) in locs.items():
                z = as_z(end[l])
                if z is None:
                    raise Unsupported('while loop modifies %s' % (l,))
                vals[h] = z[1]
            for j, f in enumerate(cands):
                if j not in bad and not holds(sub(f, vals)):
                    bad.add(j)
            moves.append([(h, s) for h, v in vals.items() if is_zint(h) for s, g in ((1, v > h), (-1, v < h)) if holds(g)])
        step(cands, check)
        if not bad:
            break
        cands = [f for j, f in enumerate(cands) if j not in bad]
    common = set((str(h), s) for h, s in moves[0]) if moves else set()
    for m in moves:
        common &= set((str(h), s) for h, s in m)
    if moves and not any(bounded(cands, h, s) for h, s in common):
        raise Unsupported('while loop: termination')
    havoc()
    ex.approx = True        # not every state that satisfies the invariant is reached
    ex.ctx.stack += cands
    ex.ctx.index += [h for k, h in locs.values() if k == 'int']
    if not ex.branch(ex.boolval(ex.ev(st.test, fr))):
        ex.block(st.orelse, fr)
        return
    try:
        ex.block(st.body, fr)
    except I.BreakEx:
        return
    except I.ContinueEx:
        pass
    raise Infeasible()      # an iteration that is not the last one: covered by the induction


def bounded(cands, h, s):
    for f in cands:
        if z3.is_le(f) or z3.is_ge(f):
            a, b = f.children()
            if str(a) == h and not any(str(v).startswith('wh!') for v in free_consts(b)) and (z3.is_ge(f) if s < 0 else z3.is_le(f)):
                return True
    return False


def candidates(ex, hs, entry, tests):
    ints, reals, funs = [], [], {}
    near = tests + list(entry.values())
    for f in near + ex.ctx.facts():
        for v in free_consts(f):
            if any(v.eq(h) for _, h in hs):
                continue
            if is_zint(v):
                ints.append(v)
            elif v.sort() == z3.RealSort() and any(f is g for g in near):
                reals.append(v)
        for x in apps_of(f):
            if any(f is g for g in near) and x.num_args() == 1 and x.sort() == z3.RealSort() and x.arg(0).sort() == z3.IntSort():
                funs[x.decl().name()] = x.decl()
    uniq = lambda xs: list(dict((x.get_id(), x) for x in xs).values())
    ints, reals = uniq(ints), uniq(reals)[:8]
    out = []
    for k, h in hs:
        e = entry[h]
        if k == 'int':
            out += [h >= 0, h >= 1, h <= e, h >= e]
            for n in ints[:8]:
                out += [h <= n, h <= n - 1, h <= n - 2]
            for d in list(funs.values())[:3]:
                for c in (-1, 0, 1):
                    x = d(simp_z(h + c)) if c else d(h)
                    for r in reals + [g for kk, g in hs if kk != 'int']:
                        out += [r < x, r <= x, r >= x, r > x, r == x]
        else:
            out += [h >= e, h <= e]
            for r in reals:
                out += [r < h, r <= h, r >= h, r > h]
    return out


def set_loc(ex, l, v, n0):
    if l[0] == 'var':
        ex.frames[l[1]].vars[l[2]] = v
    elif l[0] == 'glob':
        ex.modules[l[1]].vars[l[2]] = v
    else:
        objs_by_id(n0)[l[1]].attrs[l[2]] = v
