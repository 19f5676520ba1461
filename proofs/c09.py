"""C09: checkpointed integration visits the requested times and changes nothing.

Bounded in the number of requested times and of checkpoints, for all real times: every interleaving and every coincidence of the two time
grids.  The integrator is an assumed contract: the exact flow of a vector field that depends on the time (what it returns at a time depends on where and
when it started), so that a wrong start, a wrong time or a lost restart changes the result."""
import ast
from pyvc.prove import *
from pyvc import loops
from proofs.common import *

G = 'generic_integrator:GenericIntegrator'
CLIENT = '''
import torch
import torch.nn as nn
def times(l):
    return torch.tensor(l)
def rows(l):
    return torch.stack(l)
def select(iv, fl):
    return torch.cat([a[m] for a, m in zip(iv, fl)])
def starts(iv):
    return torch.stack([a[0] for a in iv])
def ends(iv):
    return torch.stack([a[len(a) - 1] for a in iv])
def sizes(iv, fl):
    return [(len(a), len(m)) for a, m in zip(iv, fl)]
def increasing(iv):
    ok = True
    for a in iv:
        for j in range(len(a) - 1):
            ok = ok and bool(a[j] < a[j + 1])
    return ok
def at(a, j):
    return a[j]

class Rec(object):
    def __init__(self):
        self.calls = []

rec = Rec()
def solve(func, y0, t, rtol=None, atol=None, method=None, options=None, **kw):
    rec.calls.append((func, y0, t, rtol, atol, method, options, kw, 'plain'))
    return torch.stack([y0 + (t[j] - t[0]) * func.rate + (t[j] * t[j] - t[0] * t[0]) * func.acc for j in range(len(t))])
def solve_adjoint(func, y0, t, rtol=None, atol=None, method=None, options=None, **kw):
    rec.calls.append((func, y0, t, rtol, atol, method, options, kw, 'adjoint'))
    return torch.stack([y0 + (t[j] - t[0]) * func.rate + (t[j] * t[j] - t[0] * t[0]) * func.acc for j in range(len(t))])

def weighted(r, w):
    return (r * w).sum()

def flow(y0, t, rate, acc):
    s = (t - t[0]).unsqueeze(1)
    q = (t * t - t[0] * t[0]).unsqueeze(1)
    return y0 + s * rate + q * acc

class Func(nn.Module):
    def __init__(self, rate, acc):
        super(Func, self).__init__()
        self.rate = rate
        self.acc = acc
    def forward(self, t, x):
        return self.rate
'''
FLOW = 'returns the exact solution at each of the times it is given, from the start value at the first of them'


class Set(object):
    def __init__(self, V, nt):
        self.V = V
        self.c = V.define(CLIENT)
        self.r = [V.real('t%d' % i) for i in range(nt)]
        V.assume(*[a < b for a, b in zip(self.r, self.r[1:])])
        self.t = V.call(self.c['times'], PList(list(self.r)))
        self.t0 = self.t.term
        V.external('torchdiffeq.odeint', self.c['solve'], FLOW)
        V.external('torchdiffeq.odeint_adjoint', self.c['solve_adjoint'], FLOW)

    def build(self, *a, **k):
        return self.V.call(G, *a, **k)


def intervals(nt, kind, n):
    def body(V):
        s = Set(V, nt)
        if kind == 'number':
            g = s.build('odeint', 'rk4', nr_of_checkpoints=n)
            lo, hi = s.r[0], s.r[-1]
            want = [lo + (hi - lo) * (j + 1) / (n + 1) for j in range(n + 1)]
        else:
            dt = V.real('dt')
            lo, hi = s.r[0], s.r[-1]
            # the last checkpoint interval may be shorter
            V.assume(dt > 0, lo + (n - 1) * dt < hi, hi <= lo + n * dt)
            g = s.build('odeint', 'rk4', checkpointing_time_interval=dt)
            want = [lo + (j + 1) * dt for j in range(n - 1)] + [hi]
        iv, fl = [V.ex.force(x) for x in V.ex.force(V.m(g, 'create_integration_time_intervals', s.t))]
        sz = [tuple(x) for x in V.ex.iterate_concrete(V.call(s.c['sizes'], iv, fl))]
        V.true(all(a == b for a, b in sz), 'one flag per time')
        V.eqint(iv.length(), len(want), 'one interval up to each checkpoint')
        V.eqint(fl.length(), len(want), 'flags for each interval')
        V.tensor_eq(V.call(s.c['ends'], iv), V.call(s.c['times'], PList([simp(x) for x in want])), 'the intervals end at the checkpoints')
        V.tensor_eq(V.call(s.c['starts'], iv), V.call(s.c['times'], PList([simp(x) for x in [lo] + want[:-1]])), 'each starts where the one before ends')
        V.true(V.call(s.c['increasing'], iv), 'times increase within an interval')
        V.tensor_eq(V.call(s.c['select'], iv, fl), s.t, 'the flagged times are the requested ones, each once')
        V.true(s.t.term is s.t0 or s.t.term.key() == s.t0.key(), 'requested times are not modified')
    return body


for nt in (2, 3, 4):
    for n in (0, 1, 2, 3):
        obligation('intervals: %d requested times, %d checkpoints' % (nt, n), G + '.create_integration_time_intervals', scope='all real times; bounded: number of times and checkpoints')(intervals(nt, 'number', n))
    for n in (1, 2, 3, 4):
        obligation('intervals: %d requested times, %d steps of a checkpoint distance' % (nt, n), G + '.create_integration_time_intervals', scope='all real times, distances; bounded: number of times and checkpoints')(intervals(nt, 'distance', n))


el = lambda z, i: sigma.elem(z.term, i)
sq = lambda u: mul(u, u)


def integrate(nt, n, adjoint):
    def body(V):
        s = Set(V, nt)
        D = V.dim('D')
        rate = V.tensor('rate', [D], grad=True)
        acc = V.tensor('acc', [D], grad=True)
        f = V.call(s.c['Func'], rate, acc)
        x0 = V.tensor('x0', [D], grad=True)
        got = []
        for k in (None, n):
            g = s.build('odeint', 'rk4', use_adjoint_integration=adjoint, nr_of_checkpoints=k)
            r = V.ex.force(V.m(g, 'integrate', f, x0, s.t))
            V.tensor_eq(r, ([nt, D], lambda i, j: add(sigma.elem(x0.term, [j]), add(mul(sub(el(s.t, [i]), num(s.r[0])), el(rate, [j])), mul(sub(sq(el(s.t, [i])), sq(num(s.r[0]))), el(acc, [j]))))), ('plain' if k is None else 'checkpointed') + ' integration: solution at the requested times')
            got.append(r)
        V.true(V.grads(got[1]) and V.grads(got[0]), 'gradients reach the inputs')
        w = V.tensor('w', [nt, D])
        gr = [[V.ex.force(z) for z in T.autograd_grad(V.ex, [V.call(s.c['weighted'], r, w), (x0, rate, acc)], dict(create_graph=True, allow_unused=True))] for r in got]
        for nm, a, b in zip(('start value', 'parameters', 'time dependence'), *gr):
            V.tensor_eq(b, a, 'gradient with respect to the %s with and without checkpoints' % nm)
        for c in V.ex.iterate_concrete(V.attr(s.c['rec'], 'calls')):
            c = V.ex.force(c)
            V.true(V.ex.force(c[8]) == ('adjoint' if adjoint else 'plain') and V.ex.force(c[5]) == 'rk4', 'solver asked for')
            V.is_(c[0], f, 'function that is integrated')
    return body


for nt in (2, 3):
    for n in (0, 1, 2):
        for adjoint in (False, True) if nt == 3 and n == 2 else (False,):
            obligation('integrate: %d times, %d checkpoints%s' % (nt, n, ', adjoint' if adjoint else ''), G + '.integrate', scope='all real times, all states; bounded: number of times and checkpoints')(integrate(nt, n, adjoint))


def settings(name, step, own):
    def body(V):
        s = Set(V, 2)
        D = V.dim('D')
        f = V.call(s.c['Func'], V.tensor('rate', [D]), V.tensor('acc', [D]))
        x0 = V.tensor('x0', [D])
        rt, at, st, o1, o2, ex1 = [V.real(n) for n in ('rt', 'at', 'st', 'o1', 'o2', 'ex1')]
        fixed = name not in (None, 'dopri5', 'adams')
        opts = None if own is None else V.sdict([('norm_', o1)] + ([('step_size', o2)] if own == 'step' else []), 'dict')
        kw = dict(integrator_options=opts, rtol=rt, atol=at, adjoint_params=ex1)
        if step != 'default':
            kw['step_size'] = st if step == 'given' else None
        for lib, adj in ((None, False), ('odeint', False), (None, True)):
            if adj:
                kw['use_adjoint_integration'] = True
            before = None if opts is None else [(k, v) for k, v in V.entries(opts)]
            g = V.call(G, integrator_library=lib, integrator_name=name, **kw)
            V.set(s.c['rec'], 'calls', PList([]))
            V.m(g, 'integrate', f, x0, s.t)
            cs = [V.ex.force(c) for c in V.ex.iterate_concrete(V.attr(s.c['rec'], 'calls'))]
            V.true(len(cs) == 1, 'one call of the solver')
            c = [V.ex.force(x) for x in cs[0]]
            V.is_(c[0], f, 'function')
            V.tensor_eq(c[1], x0, 'start value')
            V.tensor_eq(c[2], s.t, 'times')
            V.true(simp(ext.zr(c[3]) == rt), 'relative tolerance')
            V.true(simp(ext.zr(c[4]) == at), 'absolute tolerance')
            V.true(c[5] == (name or 'dopri5'), 'method')
            V.true(c[8] == ('adjoint' if adj else 'plain'), 'adjoint integration exactly if asked for')
            ek = V.entries(c[7])
            V.true([k for k, _ in ek] == ['adjoint_params'], 'further arguments')
            V.true(simp(ext.zr(ek[0][1]) == ex1), 'further arguments')
            want = {}
            if own is not None:
                want['norm_'] = o1
            if own == 'step':
                want['step_size'] = o2
            elif fixed and step != 'none':
                want['step_size'] = st if step == 'given' else Fraction(1, 2)
            if opts is not None:
                V.true([k for k, _ in V.entries(opts)] == [k for k, _ in before], 'the given dictionary of options is left as it is')
            o = dict(V.entries(c[6])) if c[6] is not None else {}
            V.true(sorted(o) == sorted(want), 'names of the options')
            for k in want:
                V.true(simp(ext.zr(o[k]) == ext.zr(want[k])), 'option ' + k)
    return body


for name in (None, 'dopri5', 'adams', 'euler', 'midpoint', 'rk4', 'explicit_adams', 'fixed_adams'):
    for step in ('default', 'none', 'given'):
        for own in (None, 'other', 'step'):
            obligation('settings: %s, step size %s, options %s' % (name, step, own), G + '.__init__', scope='all tolerances, step sizes, option values')(settings(name, step, own))


@obligation('refusals', G + '.__init__', scope='all times')
def refuse(V):
    s = Set(V, 3)
    n, dt = V.int('n', 0), V.real('dt')
    one = V.call(s.c['times'], PList([s.r[0]]))
    x0 = V.tensor('x0', [V.dim('D')])
    f = V.call(s.c['Func'], x0, x0)
    for kw in (dict(nr_of_checkpoints=2), dict(checkpointing_time_interval=dt)):
        g = V.call(G, 'odeint', 'rk4', **kw)
        V.raises(lambda: V.m(g, 'create_integration_time_intervals', one), 'one time is no range', ['ValueError'])
    g = V.call(G, 'odeint', 'rk4')
    V.raises(lambda: V.m(g, 'create_integration_time_intervals', s.t), 'no checkpoints asked for', ['ValueError'])
    for k, d in ((n, dt), (0, dt), (n, 0.0)):
        g = V.call(G, 'odeint', 'rk4', nr_of_checkpoints=k, checkpointing_time_interval=d)
        V.raises(lambda: V.m(g, 'create_integration_time_intervals', s.t), 'number and distance at once', ['ValueError'])
        V.raises(lambda: V.m(g, 'integrate', f, x0, s.t), 'number and distance at once', ['ValueError'])
    for lib, name in (('foo', None), ('foo', 'rk4'), ('', 'rk4'), ('odeint', 'rk5'), (None, 'rk5'), (None, 'rk2'), ('odeint', ''), ('anode', 'dopri5'), ('anode', 'euler')):
        V.raises(lambda: V.call(G, lib, name), 'unknown integrator %s %s' % (lib, name), ['ValueError'])

# ------------------------------------------------------------------ any number of requested times and checkpoints
# Ghost functions: c(k) = number of requested times before the k-th checkpoint, b(k) = number of requested times not after it.
# Their defining property is  j < c(k) <-> t(j) < cp(k)  and  j < b(k) <-> t(j) <= cp(k)  (they exist as t increases); what is used of it
# is discharged as lemmas below.
cF = z3.Function('count_before', z3.IntSort(), z3.IntSort())
bF = z3.Function('count_upto', z3.IntSort(), z3.IntSort())
GHOST = 'definition: c(k), b(k) = number of requested times before, not after checkpoint k (the requested times and the checkpoints increase)'


class Grid(object):
    """requested times t(0) < ... < t(n-1), checkpoints cp(0) = t(0) < ... < cp(m-1) = t(n-1)"""

    def __init__(self, V):
        self.V = V
        self.n = V.dim('n', 2)
        self.m = V.dim('m', 2)
        self.t = V.tensor('t', [self.n])
        self.cp = V.tensor('cp', [self.m])
        V.ex.assumptions.add(GHOST)

    def T(self, j):
        return ext.expr_to_z3(sigma.elem(self.t.term, [simp(zi(j))]))

    def C(self, k):
        return z3.If(zi(k) == zi(self.m) - 1, self.T(zi(self.n) - 1), z3.Function('el:cp', z3.IntSort(), z3.RealSort())(zi(k)))

    def CE(self, k):
        return ite(simp(zi(k) == zi(self.m) - 1), sigma.elem(self.t.term, [simp(zi(self.n) - 1)]), app('cp', (), [simp(zi(k))]))

    def dom(self, j, k):
        return z3.And(j >= 0, j < zi(self.n), k >= 0, k < zi(self.m))

    def defs(self, j, k):
        j, k = zi(j), zi(k)
        return z3.Implies(self.dom(j, k), z3.And((j < cF(k)) == (self.T(j) < self.C(k)), (j < bF(k)) == (self.T(j) <= self.C(k))))

    def range_(self, k):
        k = zi(k)
        return z3.Implies(z3.And(k >= 0, k < zi(self.m)), z3.And(cF(k) >= 0, cF(k) <= zi(self.n), bF(k) >= 0, bF(k) <= zi(self.n)))

    def lemmas(self, k):
        """what is used about checkpoint k"""
        k = zi(k)
        n, m = zi(self.n), zi(self.m)
        return [z3.Implies(z3.And(k >= 0, k < m), z3.And(cF(k) <= bF(k), bF(k) <= cF(k) + 1, cF(k) < n, bF(k) >= 1)),
                z3.Implies(z3.And(k >= 0, k < m, bF(k) == cF(k) + 1), self.T(cF(k)) == self.C(k)),
                z3.Implies(z3.And(k >= 0, k < m - 1), bF(k) <= cF(k + 1)),
                z3.Implies(k == 0, z3.And(bF(k) == 1, cF(k) == 0, self.C(k) == self.T(0))),
                z3.Implies(k == m - 1, z3.And(bF(k) == n, cF(k) == n - 1))]

    def facts(self, js, ks):
        return [self.defs(j, k) for j in js for k in ks] + [f for k in ks for f in self.lemmas(k)]

    # the finished interval q: cp(q), the requested times in between, cp(q+1)
    def interval(self, q):
        q = zi(q)
        L = simp(cF(q + 1) - bF(q) + 2)
        return [L], lambda e: ite(simp(e == 0), self.CE(q), ite(simp(e == zi(L) - 1), self.CE(q + 1), sigma.elem(self.t.term, [simp(bF(q) + e - 1)])))

    def flags(self, q):
        q = zi(q)
        return [(1, simp(q == 0)), (simp(cF(q + 1) - bF(q)), True), (1, simp(bF(q + 1) == cF(q + 1) + 1))]

    # the interval under construction: from the last checkpoint k-1 on, requested times up to (excluding) i
    def current(self, i, k):
        i, k = zi(i), zi(k)
        return [simp(i - bF(k - 1) + 1)], lambda e: ite(simp(e == 0), self.CE(k - 1), sigma.elem(self.t.term, [simp(bF(k - 1) + e - 1)]))

    def cflags(self, i, k):
        i, k = zi(i), zi(k)
        return [(1, simp(k == 1)), (simp(i - bF(k - 1)), True)]


@obligation('lemmas on the counts of requested times before and up to a checkpoint', G + '.create_integration_time_intervals', scope='any number of times and checkpoints')
def _(V):
    g = Grid(V)
    k, j = V.int('k', 0), V.int('j', 0)
    n, m = zi(g.n), zi(g.m)
    c, b = cF(k), bF(k)
    V.assume(k < m, g.T(0) == g.C(0), g.range_(k), g.range_(k + 1), g.range_(0), g.range_(m - 1))
    inc = lambda x, y: z3.Implies(z3.And(zi(x) >= 0, zi(x) < zi(y), zi(y) < n), g.T(x) < g.T(y))
    cinc = lambda x, y: z3.Implies(z3.And(zi(x) >= 0, zi(x) < zi(y), zi(y) < m), g.C(x) < g.C(y))
    js = [c, c - 1, c + 1, b, b - 1, zi(0), n - 1]
    ks = [k, zi(0), m - 1]
    V.assume(*[g.defs(x, y) for x in js for y in ks])
    V.assume(*[inc(x, y) for x in js for y in js if x is not y])
    V.assume(*[cinc(x, y) for x in ks + [k + 1] for y in ks + [k + 1] if x is not y])
    V.assume(*[g.defs(b - 1, k + 1), g.defs(b, k + 1), g.defs(cF(k + 1), k), g.defs(cF(k + 1), k + 1)])
    for q, f in enumerate(g.lemmas(k)):
        V.true(f, 'lemma %d' % q)


def roles(ex, st, fr):
    """variables of the loop by what they hold at its start: two counters at one, one vector of times, one of truth values, two empty lists, and a truth value"""
    stored = set(x.id for x in ast.walk(st) if isinstance(x, ast.Name))
    out = {}
    for k, v in fr.vars.items():
        if k not in stored:
            continue
        if v is True:
            out.setdefault('go', []).append(k)
        elif ext.is_int(v) and not isinstance(v, bool) and simp(v) == 1:
            out.setdefault('count', []).append(k)
        elif isinstance(v, PList) and v.concrete() and not v.segs:
            out.setdefault('lists', []).append(k)
        elif isinstance(v, PTensor) and v.term.op in ('bools', 'boolv'):
            out.setdefault('flags', []).append(k)
        elif isinstance(v, PTensor) and len(v.term.lead) == 1 and v.term.tail is None and simp(v.term.lead[0]) == 1:
            out.setdefault('times', []).append(k)
    if [len(out.get(x, ())) for x in ('count', 'lists', 'flags', 'times')] != [2, 2, 1, 1] or len(out.get('go', ())) > 1:
        raise Unsupported('the loop has no state of the expected kind')
    return out


def merge_loop(V, g):
    """the loop under its invariant"""
    def hook(ex, st, fr):
        r = roles(ex, st, fr)
        last = None
        base = loops.take(ex)
        for cnt in (r['count'], r['count'][::-1]):
            for li in (r['lists'], r['lists'][::-1]):
                n = len(V.checks)
                try:
                    run(ex, st, fr, r, cnt, li)
                    return
                except Wrong as e:
                    last = e
                    del V.checks[n:]
                    loops.put(ex, base)
        raise Unsupported('loop invariant: %s' % last)

    def state(ex, fr, r, cnt, li, i, k):
        fr.vars[cnt[0]], fr.vars[cnt[1]] = i, k
        d, f = g.current(i, k)
        fr.vars[r['times'][0]] = PTensor(fun1(d[0], f))
        fr.vars[r['flags'][0]] = T.boolv(g.cflags(i, k))
        q = z3.Int('q!iv')
        dq, fq = g.interval(q)
        for nm, body in ((li[0], fun1(dq[0], fq)), (li[1], T.boolv(g.flags(q)).term)):
            fam = Fam(PTensor(body), [q])
            fr.vars[nm].segs = [Seg(0, simp(zi(k) - 1), q, FamRef(fam, [q]))]
        if 'go' in r:
            fr.vars[r['go'][0]] = simp(z3.And(zi(i) < zi(g.n), zi(k) < zi(g.m)))

    def inv(i, k):
        i, k = zi(i), zi(k)
        return z3.And(k >= 1, k <= zi(g.m), bF(k - 1) <= i, i <= zi(g.n), z3.Implies(k < zi(g.m), i <= cF(k)))

    def compare(*a):
        try:
            compare_(*a)
        except PathEnd:
            raise Wrong(str(V.checks[-1])[:300])

    def compare_(ex, fr, r, cnt, li, i, k, what):
        V_ = V
        n = len(V_.checks)
        V_.true(inv(i, k), what + ': bounds')
        V_.tensor_eq(fr.vars[r['times'][0]], g.current(i, k), what + ': interval under construction')
        V_.tensor_eq(fr.vars[r['flags'][0]], T.boolv(g.cflags(i, k)).term, what + ': its flags')
        for nm, lab, want in ((li[0], 'finished intervals', lambda q: g.interval(q)), (li[1], 'finished flags', lambda q: T.boolv(g.flags(q)).term)):
            l = fr.vars[nm]
            V_.eqint(l.length(), simp(zi(k) - 1), what + ': number of ' + lab)
            if l.segs and isinstance(l.segs[-1], Item):
                if any(isinstance(s, Item) for s in l.segs[:-1]):
                    raise Wrong('several appended')
                V_.tensor_eq(l.segs[-1].v, want(zi(k) - 2), what + ': ' + lab)
        if 'go' in r:
            V_.true(zb(fr.vars[r['go'][0]]) == z3.And(zi(i) < zi(g.n), zi(k) < zi(g.m)), what + ': loop condition')
        bad = [c for c in V_.checks[n:] if c[1] != 'proved']
        if bad:
            raise Wrong(str(bad[0])[:300])

    def run(ex, st, fr, r, cnt, li):
        I = __import__('pyvc.interp', fromlist=['x'])
        one = z3.IntVal(1)
        ns = len(ex.ctx.stack)
        ex.ctx.stack += g.facts([0, 1], [0, 1]) + [g.C(0) == g.T(0)]
        compare(ex, fr, r, cnt, li, one, one, 'start')
        del ex.ctx.stack[ns:]
        base = loops.take(ex)
        lists = [fr.vars[x] for x in li]
        n0 = Heap.ctr
        ex.fresh += 1
        i, k = z3.Int('i!%d' % ex.fresh), z3.Int('k!%d' % ex.fresh)
        base = (base[0], base[1], ex.fresh) + base[3:]
        near = lambda: g.facts([i - 1, i, i + 1], [k - 1, k, k + 1, zi(g.m) - 1])
        depth = ex.depth
        names = set(cnt) | set(li) | set(r['times']) | set(r['flags']) | set(r.get('go', ()))

        def step():
            loops.put(ex, base)
            ex.depth = depth
            state(ex, fr, r, cnt, li, i, k)
            ex.ctx.stack += [inv(i, k)] + near()
            ex.ctx.index += [i, k]
            step.S = loops.state_of(ex, n0)
            if not ex.branch(ex.boolval(ex.ev(st.test, fr))):
                return 'end'
            try:
                ex.block(st.body, fr)
            except I.BreakEx:
                return 'break'
            except I.ContinueEx:
                pass
            return 'ok'

        def done(conds, out):
            if ex.ctx.infeasible():
                return
            if out[0] == 'raise':
                raise Wrong('an iteration raises %s' % (out[1],))
            if out[1] == 'end':
                return
            if out[1] == 'break':
                raise Unsupported('break')
            end = loops.state_of(ex, n0)
            for l, v in end.items():
                if l in step.S and not (step.S[l] is v or loops.same(step.S[l], v)):
                    if l[0] == 'var' and ex.frames[l[1]] is fr and l[2] in names or l[0] == 'list' and any(l[1] == x.oid for x in lists):
                        continue
                    raise Unsupported('the loop modifies %s' % (l,))
            i2, k2 = fr.vars[cnt[0]], fr.vars[cnt[1]]
            n = len(V.checks)
            V.true(z3.And(zi(i2) >= i, zi(k2) >= k, zi(i2) + zi(k2) > i + k), 'progress')
            if V.checks[-1][1] != 'proved':
                raise Wrong('no progress')
            compare(ex, fr, r, cnt, li, i2, k2, 'iteration')
            done.n += 1
        done.n = 0
        try:
            ex.explore(step, done)
        finally:
            loops.put(ex, base)
            ex.depth = depth
        if not done.n:
            raise Wrong('no iteration')
        # after the loop
        state(ex, fr, r, cnt, li, i, k)
        ex.ctx.stack += [inv(i, k)] + near()
        ex.ctx.index += [i, k]
        if ex.branch(ex.boolval(ex.ev(st.test, fr))):
            raise Infeasible()
        ex.block(st.orelse, fr)
    return hook


class Wrong(Exception):
    pass


def fun1(n, f):
    """vector with the elements f(e)"""
    e = z3.Int('e!f')
    return Tensor('funv', [n], None, ivar=e, body=f(e))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def grid_calls(V, g, kind):
    """torch.linspace, torch.arange: assumed to return increasing times (their values are checked in the bounded obligations)"""
    got = []

    def linspace(ex, a, k):
        names = ('start', 'end', 'steps')
        b = dict(zip(names, a))
        b.update(k)
        got.append(b)
        return g.cp
    def arange(ex, a, k):
        b = dict(zip(('start', 'end', 'step'), a))
        b.update(k)
        got.append(b)
        return V.tensor('cp', [simp(zi(g.m) - 1)])
    V.external('torch.linspace', linspace, 'returns the given number of increasing values, the first is the start and the last the end')
    V.external('torch.arange', arange, 'returns increasing values from the start on, less than the end')
    return got


def unbounded(kind):
    def body(V):
        g = Grid(V)
        got = grid_calls(V, g, kind)
        V.assume(*g.facts([0, 1, zi(g.n) - 1], [0, zi(g.m) - 1, zi(g.m) - 2]))
        V.assume(g.C(zi(g.m) - 2) < g.T(zi(g.n) - 1))
        cpf = z3.Function('el:cp', z3.IntSort(), z3.RealSort())
        if kind == 'number':
            V.assume(cpf(zi(g.m) - 1) == g.T(zi(g.n) - 1))
            gi = V.call(G, 'odeint', 'rk4', nr_of_checkpoints=simp(zi(g.m) - 2))
        else:
            dt = V.real('dt')
            V.assume(dt > 0)
            gi = V.call(G, 'odeint', 'rk4', checkpointing_time_interval=dt)
        t0 = g.t.term
        V.ex.while_inv = merge_loop(V, g)
        iv, fl = [V.ex.force(x) for x in V.ex.force(V.m(gi, 'create_integration_time_intervals', g.t))]
        V.ex.while_inv = None
        V.true(len(got) == 1 and set(got[0]) >= {'start', 'end'}, 'the checkpoints are created once')
        V.tensor_eq(got[0]['start'], ([], lambda: sigma.elem(t0, [0])), 'checkpoints start at the first requested time')
        V.tensor_eq(got[0]['end'], ([], lambda: sigma.elem(t0, [simp(zi(g.n) - 1)])), 'and end at the last')
        if kind == 'number':
            V.eqint(got[0]['steps'], g.m, 'number of checkpoints asked for')
        else:
            V.true(ext.zr(V.ex.force(got[0]['step'])) == dt, 'distance asked for')
        V.eqint(iv.length(), simp(zi(g.m) - 1), 'one interval up to each checkpoint')
        V.eqint(fl.length(), simp(zi(g.m) - 1), 'flags for each interval')
        q = V.int('q', 0)
        V.assume(q < zi(g.m) - 1, *g.facts([bF(q) - 1, bF(q), cF(q + 1)], [q, q + 1]))
        V.tensor_eq(V.item(iv, q), g.interval(q), 'interval: checkpoint, requested times in between, next checkpoint')
        V.tensor_eq(V.item(fl, q), T.boolv(g.flags(q)).term, 'flags: exactly the requested times, each once')
        V.true(g.t.term is t0, 'requested times are not modified')
    return body


for _k in ('number', 'distance'):
    obligation('intervals: any number of requested times and checkpoints (%s)' % _k, G + '.create_integration_time_intervals', scope='any number of requested times and checkpoints, all real times')(unbounded(_k))


def attached(o, names):
    """no detached occurrence of the named tensors in the elements"""
    def bad(e, d):
        if isinstance(e, Expr):
            if e.op == 'app' and d and e.args[0] in names:
                return True
            return any(bad(x, d or e.op == 'det') for x in e.args)
        if isinstance(e, (tuple, list)):
            return any(bad(x, d) for x in e)
        return False
    t = o.term
    return not bad(sigma.elem(t, [z3.Int('at!%d' % j) for j in range(len(t.lead))]), False)


def chunks(V, g, xs, want):
    """the loop over the intervals: its state after q intervals is the solution at checkpoint q and the solutions at the first b(q) requested times"""
    def hook(ex, lo, hi, body, fr):
        I = __import__('pyvc.interp', fromlist=['x'])
        before = dict(fr.vars)
        n0 = Heap.ctr
        # first interval as it is, then the general one
        ns = len(ex.ctx.stack)
        base0 = loops.take(ex)
        S0 = loops.state_of(ex, n0)
        found = {}

        def first():
            loops.put(ex, base0)
            body(z3.IntVal(0))
            return 'ok'

        def look(conds, out):
            if ex.ctx.infeasible():
                return
            if out[0] != 'ok':
                raise Wrong('an iteration raises %s' % (out[1],))
            for l, v in loops.state_of(ex, n0).items():
                if l in S0 and not (S0[l] is v or loops.same(S0[l], v)):
                    if l[0] != 'var' or ex.frames[l[1]] is not fr:
                        if l[0] in ('flags',):
                            continue
                        raise Unsupported('the loop modifies %s' % (l,))
                    found[l[2]] = S0[l]
        ex.ctx.stack += g.facts([0, bF(0), bF(1) - 1, cF(1)], [0, 1])
        try:
            ex.explore(first, look)
        finally:
            loops.put(ex, base0)
            del ex.ctx.stack[ns:]
        start = [k for k, v in found.items() if isinstance(v, PTensor) and v.term is xs.term]
        res = [k for k, v in found.items() if v is None]
        if len(start) != 1 or len(res) != 1 or len(found) != 2:
            raise Unsupported('the loop has no state of the expected kind: %s' % sorted(found))
        at = lambda q: ([xs.term.lead[0]], lambda j: want(g.CE(q), j))
        rows = lambda q: ([simp(bF(zi(q))), xs.term.lead[0]], lambda e, j: want(sigma.elem(g.t.term, [e]), j))

        def compare(q, what):
            n = len(V.checks)
            try:
                V.tensor_eq(fr.vars[start[0]], at(q), what + ': solution at the checkpoint')
                V.tensor_eq(fr.vars[res[0]], rows(q), what + ': solutions at the requested times up to it')
            except PathEnd:
                raise Unsupported('loop invariant: ' + str(V.checks.pop())[:300])
            bad = [c for c in V.checks[n:] if c[1] != 'proved']
            if bad:
                del V.checks[n:]
                raise Unsupported('loop invariant: ' + str(bad[0])[:300])
            if not all(V.grads(fr.vars[v]) and attached(fr.vars[v], ('x0', 'rate', 'acc')) for v in (res[0], start[0])):
                raise Unsupported('loop invariant: gradients')

        def general(q):
            e = z3.Int('e!f')
            j = z3.Int('e!g')
            d, f = at(q)
            fr.vars[start[0]] = PTensor(Tensor('funm', d, None, ivars=(j,), body=f(j)), requires_grad=True)
            d, f = rows(q)
            fr.vars[res[0]] = PTensor(Tensor('funm', d, None, ivars=(e, j), body=f(e, j)), requires_grad=True)
        ex.fresh += 1
        q = z3.Int('q!%d' % ex.fresh)
        base = loops.take(ex)
        depth = ex.depth

        def one(first_):
            def fn():
                loops.put(ex, base)
                ex.depth = depth
                if first_:
                    ex.ctx.stack += g.facts([0, bF(0), bF(1) - 1, cF(1)], [0, 1])
                    body(z3.IntVal(0))
                else:
                    general(q)
                    ex.ctx.stack += [q >= 1, q < zi(hi)] + g.facts([bF(q), bF(q + 1) - 1, cF(q + 1)], [q, q + 1])
                    ex.ctx.index.append(q)
                    body(q)
                return 'ok'

            def cb(conds, out):
                if ex.ctx.infeasible():
                    return
                if out[0] != 'ok':
                    raise Unsupported('an iteration raises %s' % (out[1],))
                one.n += 1
                compare(z3.IntVal(1) if first_ else q + 1, 'first interval' if first_ else 'any interval')
            try:
                ex.explore(fn, cb)
            finally:
                loops.put(ex, base)
                ex.depth = depth
        one.n = 0
        one(True)
        one(False)
        if one.n < 2:
            raise Unsupported('loop invariant: no iteration')
        general(hi)
        return None
    return hook


def integrate_any(adjoint):
    def body(V):
        g = Grid(V)
        m1 = simp(zi(g.m) - 1)
        V.assume(*g.facts([0, 1, zi(g.n) - 1], [0, zi(g.m) - 1]))
        D = V.dim('D')
        rate, acc = V.tensor('rate', [D], grad=True), V.tensor('acc', [D], grad=True)
        x0 = V.tensor('x0', [D], grad=True)
        c = V.define(CLIENT)
        f = V.call(c['Func'], rate, acc)
        calls = []

        def solver(kind):
            def solve(ex, a, k):
                b = dict(zip(('func', 'y0', 't'), a))
                b.update(k)
                V.is_(b['func'], f, 'function that is integrated')
                V.true(ex.force(b['method']) == 'rk4' and kind == ('adjoint' if adjoint else 'plain'), 'solver asked for')
                y, t = ex.force(b['y0']), ex.force(b['t'])
                return ex.call(c['flow'], [y, t, rate, acc], {})
            return solve
        V.external('torchdiffeq.odeint', solver('plain'), FLOW)
        V.external('torchdiffeq.odeint_adjoint', solver('adjoint'), FLOW)

        def contract(ex, a):
            q = z3.Int('q!iv')
            dq, fq = g.interval(q)
            V.tensor_eq(a['t'], g.t, 'the intervals are those of the requested times')
            return (PList(segs=[Seg(0, m1, q, FamRef(Fam(PTensor(fun1(dq[0], fq)), [q]), [q]))]), PList(segs=[Seg(0, m1, q, FamRef(Fam(T.boolv(g.flags(q)), [q]), [q]))]))
        V.contract(G + '.create_integration_time_intervals', contract)
        t0 = el(g.t, [0])
        want = lambda tt, j: add(el(x0, [j]), add(mul(sub(tt, t0), el(rate, [j])), mul(sub(sq(tt), sq(t0)), el(acc, [j]))))
        gi = V.call(G, 'odeint', 'rk4', use_adjoint_integration=adjoint, nr_of_checkpoints=simp(zi(g.m) - 2))
        V.ex.for_inv = chunks(V, g, x0, want)
        r = V.ex.force(V.m(gi, 'integrate', f, x0, g.t))
        V.ex.for_inv = None
        V.tensor_eq(r, ([g.n, D], lambda i, j: want(el(g.t, [i]), j)), 'solution at the requested times, in order')
        V.true(V.grads(r) and attached(r, ('x0', 'rate', 'acc')), 'gradients reach the inputs')
        gp = V.call(G, 'odeint', 'rk4', use_adjoint_integration=adjoint)
        V.tensor_eq(V.m(gp, 'integrate', f, x0, g.t), r, 'the same without checkpoints')
    return body


for _a in (False, True):
    obligation('integrate: any number of times and checkpoints%s' % (', adjoint' if _a else ''), G + '.integrate', scope='any number of requested times and checkpoints, all real times, all states')(integrate_any(_a))
