"""prove.py CXX tier OUT.json -- discharge the obligations of proofs/cxx.py on the current source of the repository.

An obligation is a Python function body(V) that builds symbolic inputs satisfying the precondition, runs the real
source symbolically (interp.py) and states the postcondition with V.true / V.tensor_eq / V.raises.  It is re-run on
every feasible path.  Status: proved (every check on every path discharged), refuted (a check fails and a concrete
counterexample of the symbolic result was confirmed), undecided (anything else, never reported as a violation)."""
import random
import sys, os, re, ast, itertools, json, time, traceback, importlib, signal, multiprocessing
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from pyvc import interp, ext, sigma, neval                        # noqa
from pyvc import tensor as T                                      # noqa
from pyvc.objs import *                                           # noqa
from pyvc.terms import *                                          # noqa

OBLIGATIONS = []
LOGIC = set('and or not ite let distinct exists forall Int Real Bool to_real to_int div mod abs true false'.split())


class Ob(object):
    def __init__(self, name, func, body, opts):
        self.name, self.func, self.body, self.opts = name, func, body, opts


def obligation(name, func='', **opts):
    """decorator: registers body(V) as an obligation about `func`.  opts: tier='thorough', timeout, scope, assume"""
    def d(f):
        OBLIGATIONS.append(Ob(name, func, f, opts))
        return f
    return d


def real_consts(e, seen):
    """z3 terms of the numbers in an expression"""
    if isinstance(e, Expr) and id(e) not in seen:
        seen.add(id(e))
        if e.op in ('real', 'int'):
            yield e.args[0]
        if e.op == 'app' and e.args[0] in sigma.LEAFDEFS and e.args[0] not in seen:
            seen.add(e.args[0])
            for x in real_consts(sigma.leaf_elem(e.args[0], e.args[1]), seen):
                yield x
        for a in e.args:
            for x in real_consts(a, seen):
                yield x
    elif isinstance(e, tuple):
        for a in e:
            for x in real_consts(a, seen):
                yield x


class PathEnd(Exception):
    """stop this path (its checks so far count)"""


class V(object):
    """the specification interface of one obligation"""

    def __init__(self, ex, ob, inline=False):
        self.ex, self.ob = ex, ob
        self.cache = set()
        self.inline = inline
        self.checks = []           # (what, status, detail, backend)
        self.covered = 0
        self.paths = 0
        self.raised = 0
        self.backend = {}

    # ------------------------------------------------ inputs
    def dim(self, name, lo=1):
        v = z3.Int(name)
        self.ex.ctx.add(v >= lo)
        return v

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None:
            self.ex.ctx.add(v >= zi(lo))
        if hi is not None:
            self.ex.ctx.add(v < zi(hi))
        return v

    def real(self, name):
        return z3.Real(name)

    def assume(self, *fs):
        self.ex.ctx.add(*fs)

    def tensor(self, name, lead, tail=None, grad=False, params=(), **fl):
        if grad:
            self.ex.grad_names = self.ex.grad_names | {name}
            fl['requires_grad'] = True
        return PTensor(tvar(name, params, list(lead), tail), **fl)

    def sdict(self, items, kind='SortedDict'):
        d = PDict(kind)
        for k, v in items:
            ext.dict_set(self.ex, d, k, v)
        return d

    def list(self, items):
        return PList(list(items))

    # ------------------------------------------------ running the real code
    def contract(self, qual, f, name=None):
        """calls of `qual` use the contract f(ex, args by parameter name) instead of the body (unless the contract was not met)"""
        if self.inline:
            return
        q = 'neuro_shooting.' + qual
        fn_ = self.ex.lookup(q)

        def stub(ex, a, k):
            return f(ex, ex.bind_args(fn_, list(a), dict(k)))
        self.ex.stubs[fn_.qual()] = stub

    def external(self, name, f, contract):
        """calls of the external function `name` run f (a function of client code or of (ex, args, kwargs)): an assumed contract"""
        self.ex.assumptions.add('assumed: %s: %s' % (name, contract))
        self.ex.external[name] = f if callable(f) else lambda ex, a, k: ex.call(f, list(a), dict(k))

    def define(self, src):
        """module with client code written for the specification (stand-ins for callers' objects)"""
        m = interp.RModule('spec')
        fr = interp.Frame(m.vars, m)
        self.ex.frames.append(fr)
        try:
            for st in ast.parse(src).body:
                self.ex.stmt(st, fr)
        finally:
            self.ex.frames.pop()
        return m.vars

    def fields(self, o, names, what):
        """the object has exactly these attributes: otherwise its state is represented in another way and the proof does not apply"""
        o = self.ex.force(o)
        if set(o.attrs) != set(names):
            raise Unsupported('%s: other attributes: %s' % (what, sorted(set(o.attrs) ^ set(names))))

    def get(self, qual):
        return self.ex.lookup('neuro_shooting.' + qual)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = self.get(f)
        return self.ex.call(f, list(a), k)

    def m(self, o, name, *a, **k):
        return self.ex.call(self.ex.getattr(o, name), list(a), k)

    def attr(self, o, name):
        return self.ex.force(self.ex.getattr(o, name))

    def set(self, o, name, v):
        self.ex.setattr(o, name, v)

    def item(self, o, k):
        return self.ex.force(self.ex.getitem(o, k))

    def entries(self, d):
        """concrete dictionary -> list of (key, value)"""
        d = self.ex.force(d)
        if not isinstance(d, PDict):
            self.fail('result is a dictionary', 'got %s' % type(d).__name__)
        out = []
        for e in d.ents:
            if not isinstance(e, Ent):
                raise Unsupported('symbolic dictionary where concrete entries are expected')
            out.append((e.k, self.ex.force(e.v)))
        return out

    def pyset(self, qual, v):
        """module global"""
        mod, _, nm = qual.partition(':')
        self.ex.module('neuro_shooting.' + mod).vars[nm] = v

    # ------------------------------------------------ checks
    def rec(self, what, status, detail='', backend='eval'):
        self.checks.append((what, status, detail))
        self.backend[backend] = self.backend.get(backend, 0) + 1

    def exact(self):
        """is a z3 model of the path facts a genuine state?"""
        if self.ex.ctx.foralls or self.ex.ctx.injective or self.ex.approx:
            return False
        for f in self.ex.ctx.facts():
            s = f.sexpr()
            if 'PS' in s or 'numel' in s:
                return False
            if 'el:' in s and any('el:' + n in s for n in sigma.LEAFDEFS):
                return False        # elements of a tensor computed by the program
        return True

    def facts(self, *extra):
        fs = self.ex.ctx.facts() + list(extra)
        return fs + self.ex.ctx.axiom_instances(fs) + self.ex.ctx.key_instances(fs)

    def ground(self, es):
        """the definitions of prefix sums and the ranges of sizes at small arguments (for finding models)"""
        out = []
        for f, canon, params, cb, nn in PS.reg.values():
            if len(params) > 2:
                continue
            for ps in itertools.product(range(4), repeat=len(params)):
                sub = lambda k: z3.substitute(cb, *([(canon, z3.IntVal(k))] + [(p, z3.IntVal(a)) for p, a in zip(params, ps)]))
                ap = lambda k: f(*[z3.IntVal(a) for a in ps] + [z3.IntVal(k)])
                out.append(ap(0) == 0)
                out += [ap(k + 1) == ap(k) + sub(k) for k in range(5)]
        for n, ax in self.ex.ctx.axioms.items():
            k = ax.__code__.co_argcount - len(ax.__defaults__ or ())
            if k <= 2:
                out += [ax(*[z3.IntVal(a) for a in args]) for args in itertools.product(range(5), repeat=k)]
        out = [f for f in out if not isinstance(f, bool)]
        seen = {}
        for f in out + [c for e in es if hasattr(e, 'op') for c in real_consts(e, set())]:
            for x in apps_of(f):
                if x.decl().name() == 'numel':
                    seen[x.get_id()] = x
        return out + [x >= 0 for x in seen.values()]

    def env(self, m, **k):
        ax = dict(self.ex.ctx.axioms)
        ax.setdefault('numel', lambda s: NUMEL(s) >= 0)
        return neval.Env(m, axioms=ax, **k)

    def consistent(self, m, ints=None):
        """the model satisfies all facts with the defined functions interpreted as they are defined, and the universal facts"""
        try:
            e = self.env(m, ints=ints)
            for f in self.ex.ctx.facts():
                if isinstance(f, bool) or ints and not any(c.decl().name() in ints for c in free_consts(f)):
                    continue
                if not e.zbool(f):
                    return False
            if ints:
                return True
            for lo, hi, iv, g in self.ex.ctx.foralls:
                a, b = e.zint(zi(lo)), e.zint(zi(hi))
                if b - a > 12:
                    return False
                for c in range(a, b):
                    x = g(z3.IntVal(c))
                    if x is not True and not e.zbool(x):
                        return False
        except neval.NoValue:
            return False
        return True

    def small(self):
        cs = []
        seen = set()
        for f in self.ex.ctx.facts():
            for c in free_consts(f):
                if is_zint(c) and c.get_id() not in seen:
                    seen.add(c.get_id())
                    cs.append(c)
        return cs

    def model(self, *extra):
        """model of the path (small integers preferred)"""
        for bound in (3, 6, 40, None):
            s = z3.Solver()
            s.set('timeout', 4000)
            for f in self.facts(*extra):
                s.add(f)
            if bound is not None:
                for c in self.small():
                    s.add(c <= bound)
            if bound is not None and bound <= 6:
                for f in self.ground(extra):
                    s.add(f)
            if s.check() == z3.sat:
                return s.model()
        return None

    def fail(self, what, detail=''):
        """a definite failure of the postcondition on this path"""
        m = self.model() if self.exact() else None
        if m is not None:
            self.rec(what, 'refuted', '%s; inputs %s; path %s' % (detail, showm(m), [str(f) for f in self.ex.ctx.stack][-12:]))
        elif self.ex.ctx.infeasible():
            raise Infeasible()
        else:
            self.rec(what, 'undecided', detail)
        raise PathEnd()

    def true(self, c, what):
        if isinstance(c, bool):
            if c:
                self.rec(what, 'proved')
            else:
                self.fail(what, 'is False')
            return
        c = self.ex.boolval(c) if not is_zbool(c) else c
        r = self.ex.ctx.decide(c)
        if r is True:
            self.rec(what, 'proved', backend='z3')
            return
        if not isinstance(c, bool) and self.exact():
            m = self.model(z3.Not(c))
            if m is not None:
                self.rec(what, 'refuted', 'counterexample %s' % showm(m), 'z3')
                raise PathEnd()
        if r is False:
            self.fail(what, 'is false: %s' % c)
        self.rec(what, 'undecided', str(c)[:600], 'z3')

    def eqint(self, a, b, what):
        a, b = simp(a), simp(b)
        if not (ext.is_int(a) and ext.is_int(b)):
            return self.fail(what, 'not integers: %r %r' % (a, b))
        return self.true(simp(zi(a) == zi(b)), what)

    def none(self, v, what):
        v = self.ex.force(v)
        self.true(v is None, what)

    def is_(self, a, b, what):
        """same object"""
        a, b = self.ex.force(a), self.ex.force(b)
        if ext.is_num(a) and ext.is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
            return self.true(simp(ext.zr(a) == ext.zr(b)), what)  # numbers have no identity
        self.true(a is b or isinstance(a, (int, str, Fraction)) and type(a) is type(b) and a == b, what)

    def shape(self, t, lead, what, tail=None):
        t = self.ex.force(t)
        if not isinstance(t, PTensor):
            return self.fail(what, 'not a tensor: %s' % type(t).__name__)
        t = t.term
        if (t.tail is None) != (tail is None) or len(t.lead) != len(lead):
            return self.fail(what, 'shape %s instead of %s' % (t.lead, lead))
        for a, b in zip(t.lead, lead):
            self.true(simp(zi(a) == zi(b)), what)
        if tail is not None:
            self.true(simp(t.tail.term == tail.term), what)

    def idx(self, t):
        """fresh in-range indices of a term"""
        out = []
        for d in t.lead:
            if d == 1:
                out.append(z3.IntVal(0))
                continue
            i = self.ex.fresh_int('ix')
            self.ex.ctx.stack.append(i >= 0)
            self.ex.ctx.stack.append(i < zi(d))
            self.ex.ctx.index.append(i)
            out.append(i)
        if t.tail is not None:
            i = self.ex.fresh_int('ix')
            self.ex.ctx.stack.append(i >= 0)
            self.ex.ctx.stack.append(i < t.tail.numel())
            out.append(i)
        return out

    def lost(self, got, i, f, what):
        """differentiating through the result reaches every variable it reaches through the specification (where it depends on it at all)"""
        live = set() if got.flags.get('requires_grad') is False and got.term.op != 'var' else T.tdeps(got.term)
        w = f(*i)
        lost = (T.tdeps(w) & T.vars_of(got.term)) - live
        if lost:
            self.rec(what + ' (differentiable)', 'refuted', 'no gradient reaches %s' % ', '.join(sorted(lost)), 'dependency')
            raise PathEnd()

    def tensor_eq(self, got, want, what, shape=True, grad=None):
        """got: tensor object; want: tensor object / term / (lead, f(*idx)->Expr)"""
        grad = self.ob.opts.get('grad', True) if grad is None else grad
        got = self.ex.force(got)
        if not isinstance(got, PTensor):
            return self.fail(what, 'not a tensor: %s' % type(got).__name__)
        g = got.term
        if isinstance(want, PTensor):
            want = want.term
        if isinstance(want, Tensor):
            w = want
            lead, tail, f = w.lead, w.tail, (lambda *i: sigma.elem(w, list(i)))
        else:
            lead, f = want[0], want[1]
            tail = want[2] if len(want) > 2 else None
        if shape:
            n = len(self.checks)
            self.shape(got, lead, what + ' (shape)', tail)
            if any(c[1] != 'proved' for c in self.checks[n:]):
                return
        ns = len(self.ex.ctx.stack)
        ni = len(self.ex.ctx.index)
        if isinstance(want, Tensor) and g.key() == want.key():
            self.rec(what, 'proved', backend='identical')
            return
        ck = self.cachekey(g, want) if isinstance(want, Tensor) else None
        if ck is not None and ck in self.cache:
            self.rec(what, 'proved', backend='repeated')
            return
        try:
            i = self.idx(g)
            if self.ex.ctx.infeasible():
                self.rec(what, 'proved', 'empty', 'z3')
                return
            if self.congruent(g, i, f):
                self.rec(what, 'proved', backend='congruence')
            else:
                dims = list(g.lead) + ([g.tail.numel()] if g.tail is not None else [])
                self.eq(sigma.elem(g, i), f(*i), what, [(v, d) for v, d in zip(i, dims) if not z3.is_int_value(v)])
            if grad and self.checks[-1][1] == 'proved':
                self.lost(got, i, f, what)
            if ck is not None and self.checks[-1][1] == 'proved':
                self.cache.add(ck)
        finally:
            del self.ex.ctx.stack[ns:]
            del self.ex.ctx.index[ni:]

    def cachekey(self, g, w):
        """the equation with all facts about the symbols in it: proved once, it holds on every path with the same facts"""
        if PS.reg or self.ex.ctx.axioms or self.ex.ctx.foralls or self.ex.ctx.injective:
            return None
        words = re.compile(r'[A-Za-z_][\w!.:]*')
        txt = [g.key(), w.key()]
        names = set(words.findall(txt[0])) | set(words.findall(txt[1]))
        defs = dict(sigma.LEAFDEFS)
        facts = [(f, set(words.findall(f))) for f in (x.sexpr() for x in self.ex.ctx.facts())]
        used = set()
        while True:
            n = len(names)
            for k, d in defs.items():
                if k in names and k not in used:
                    used.add(k)
                    names |= set(words.findall(d[1].key()))
            for f, ns in facts:
                v = ns - LOGIC
                if f not in used and (not v or v & names):
                    used.add(f)
                    names |= v
            if len(names) == n:
                break
        return (txt[0], txt[1], tuple(sorted(used)), tuple(sorted((k, d[1].key()) for k, d in defs.items() if k in used)))

    def congruent(self, g, i, f):
        """equal already when convolutions, normalisations and derivatives are uninterpreted functions of their arguments"""
        if not T.has_op(g, ('conv2d', 'gnorm', 'grad')):
            return False
        sigma.OPQ.update(('conv2d', 'gnorm', 'grad'))
        try:
            return sigma.prove_eq(sigma.elem(g, i), num(f(*i)), self.ex.ctx, text=False)[0] == 'proved'
        finally:
            sigma.OPQ.clear()

    def eq(self, a, b, what, idx=()):
        """equality of two real expressions"""
        a, b = num(a), num(b)
        r = limited(3.0, lambda: sigma.prove_eq(a, b, self.ex.ctx))
        if r is None:
            # long: look for an assignment on which they differ before going on
            c = self.numeric(a, b, idx, quick=True)
            if c is not None:
                self.rec(what, 'refuted', c, 'eval')
                raise PathEnd()
            r = sigma.prove_eq(a, b, self.ex.ctx)
        st, msg = r
        if st == 'proved':
            self.rec(what, 'proved', backend='sigma')
            return
        za, zb = ext.expr_to_z3(sigma.simplify_expr(a)), ext.expr_to_z3(sigma.simplify_expr(b))
        if za is not None and zb is not None and self.ex.ctx.check(za != zb) == z3.unsat:
            self.rec(what, 'proved', backend='z3')
            return
        c = self.numeric(a, b, idx)
        if c is not None:
            self.rec(what, 'refuted', c + '; ' + msg[:500], 'sigma')
            raise PathEnd()
        self.rec(what, 'undecided', msg[:800], 'sigma')

    def numeric(self, a, b, idx=(), quick=False):
        """a concrete assignment on which the two expressions differ (None if none was found)"""
        vs = None
        for f in self.ex.ctx.facts():
            s = f.sexpr()
            if 'el:' in s:
                # conditions on elements: only elements of inputs that do not occur in the expressions are free
                if vs is None:
                    vs = set(sigma.LEAFDEFS) | T.vars_of([a, b])
                if any('el:' + n in s for n in vs):
                    return None
        if self.ex.approx:
            return None
        steps = 0
        for m in self.models(a, b) if not quick else self.models(a, b, only=2):
            if not self.consistent(m):
                continue
            for ints in self.index_values(m, idx, 60):
                if steps > (40000 if quick else 600000):
                    return None
                if ints and not self.consistent(m, ints):
                    continue
                tot = 0
                for trial in range(3):
                    env = self.env(m, salt=str(trial), ints=ints)
                    if quick:
                        env.budget = b0 = 15000
                    else:
                        b0 = env.budget
                    try:
                        x = neval.ev(a, env)
                        y = neval.ev(b, env)
                    except (neval.NoValue, OverflowError, ZeroDivisionError, ValueError, RecursionError):
                        steps += b0 - env.budget
                        break
                    steps += b0 - env.budget
                    if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
                        tot += 1
                    elif ints or trial > 0:
                        break
                if tot >= 2:
                    return 'counterexample: sizes/indices %s%s, values %g vs %g' % (showm(m), ' at %s' % ints if ints else '', x, y)
        return None

    def index_values(self, m, idx, n):
        """the index of the model, then other indices of the tensor"""
        yield {}
        ds = []
        try:
            for v, d in idx:
                ds.append((v.decl().name(), self.env(m).zint(zi(d))))
        except neval.NoValue:
            return
        tot = 1
        for _, d in ds:
            tot *= max(d, 0)
        if tot <= 1 or not ds:
            return
        r = random.Random(7)
        todo = list(range(tot)) if tot <= 5000 else [r.randrange(tot) for _ in range(n)]
        r.shuffle(todo)
        for k in todo[:n]:
            out = {}
            for nm, d in ds:
                out[nm] = k % d
                k //= d
            yield out

    def models(self, *es, only=None):
        """models of the path: small ones, then ones in which sizes are at least two and numbers are distinct where possible"""
        if only is None:
            m = self.model()
            if m is None:
                return
            yield m
        cs = {}
        for f in list(self.ex.ctx.facts()) + [c for e in es for c in real_consts(e, set())]:
            for c in free_consts(f):
                cs[c.decl().name()] = c
        for size in (2, 3) if only is None else (only,):
            s = z3.Solver()
            s.set('timeout', 4000)
            for f in self.facts() + self.ground(es):
                s.add(f)
            for k, (nm, c) in enumerate(sorted(cs.items())):
                if is_zint(c):
                    fs = [z3.And(c >= size, c <= size + 2), c <= 6]
                elif c.sort() == z3.RealSort():
                    fs = [c == z3.Q(7 + 4 * k, 5)]
                else:
                    continue
                for f in fs:
                    s.push()
                    s.add(f)
                    if s.check() == z3.sat:
                        break
                    s.pop()
            if s.check() == z3.sat:
                yield s.model()

    def raises(self, thunk, what, names=None):
        try:
            r = thunk()
        except PyRaise as e:
            if names is not None and not any(interp.exc_isa(e.exc.name, n) for n in names):
                self.fail(what, 'raised %s' % e.exc.name)
            self.rec(what, 'proved')
            return
        self.fail(what, 'no error was raised')

    def grads(self, o):
        return T.needs_grad(self.ex, self.ex.force(o))


def limited(seconds, thunk):
    """result of thunk, None if it takes longer"""
    sigma.UNTIL[0] = time.time() + seconds
    try:
        return thunk()
    except sigma.Long:
        return None
    finally:
        sigma.UNTIL[0] = None


def showm(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append('%s=%s' % (d.name(), m[d]))
    return ', '.join(sorted(out))[:600]


def run_one(ob, inline=False):
    t0 = time.time()
    ex = interp.Exec(max_paths=ob.opts.get('max_paths', 400))
    inline = inline or bool(os.environ.get('VP_INLINE'))
    v = V(ex, ob, inline)
    ext.USED.clear()
    und = []

    def body():
        # every path starts from the same state
        Heap.ctr = 0
        del Heap.objs[:]
        Fam.ctr = 0
        PS.reset()
        ex.modules = {}
        ex.frames = []
        ex.famcache = {}
        ex.fresh = 0
        ex.depth = 0
        ex.steps = 0
        ex.nograd = 0
        PTensor.nograd = False
        ex.hookids = 0
        ex.rank = {}
        ex.loopidx = ()
        ex.guess = 0
        ex.approx = False
        ex.draws = []
        ex.external = {}
        ex.stubs = {}
        ex.grad_names = frozenset()
        ex.ctx.base = []
        ex.ctx.cache = {}
        ex.ctx.strconst = {}
        ex.ctx.injective = {}
        ex.ctx.axioms = {}
        ex.ctx.pairs = {}
        sigma.LEAFDEFS.clear()
        return ob.body(v)

    def cb(conds, out):
        if out[0] == 'raise':
            v.raised += 1
            nm = out[1].name
            try:
                v.fail('no unexpected error', 'raised %s%r' % (nm, tuple(str(x)[:100] for x in out[1].args)))
            except PathEnd:
                pass
            except Infeasible:
                return
        v.paths += 1
        if not v.covered:
            r = ex.ctx.check()
            if r == z3.sat:
                v.covered = 1

    def body2():
        try:
            return body()
        except PathEnd:
            return None
    status, detail = None, ''
    try:
        ex.explore(body2, cb)
    except Unsupported as e:
        status, detail = 'undecided', 'outside the subset: %s' % e
        if os.environ.get('VP_TB'):
            traceback.print_exc()
    except ReadPoison as e:
        status, detail = 'undecided', 'outside the subset: loop-carried value (%s)' % e.p.why
        if os.environ.get('VP_TB'):
            traceback.print_exc()
    except (RecursionError, z3.Z3Exception, AssertionError, AttributeError, KeyError, IndexError, TypeError, ValueError) as e:
        status, detail = 'undecided', 'verifier error %s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VP_TB'):
            traceback.print_exc()
    ref = [c for c in v.checks if c[1] == 'refuted']
    unk = [c for c in v.checks if c[1] == 'undecided']
    if ref:
        status, detail = 'refuted', '%s: %s' % (ref[0][0], ref[0][2])
    elif status is None and unk:
        status, detail = 'undecided', '%s: %s' % (unk[0][0], unk[0][2])
    elif status is None and (not v.checks or not v.paths or not v.covered):
        status, detail = 'undecided', 'vacuous: %d checks, %d paths, satisfiable %s' % (len(v.checks), v.paths, bool(v.covered))
    elif status is None:
        status = 'proved'
        detail = '%d checks on %d paths' % (len(v.checks), v.paths)
    if ob.opts.get('helper') and status == 'refuted':
        # the contract of an internal function: not meeting it is no violation by itself, its callers are then checked against the body
        status, detail = 'undecided', 'contract of an internal function not met: ' + detail
    return dict(name=ob.name, function=ob.func, inline=inline, status=status, detail=detail[:3000], time=round(time.time() - t0, 3), scope=ob.opts.get('scope', ''),
                checks=len(v.checks), paths=v.paths, backend='+'.join(sorted(v.backend)) or '-', backends=v.backend, trusted=sorted(ext.USED),
                assumptions=sorted(set(list(ex.assumptions) + list(ob.opts.get('assume', [])))), functions=sorted(ex.trace), queries=Stats.queries, solver_time=Stats.time)


def child(ob, conn, inline=False):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        if os.environ.get('VP_PROF'):
            import cProfile, pstats
            pr = cProfile.Profile()
            r = pr.runcall(run_one, ob, inline)
            pstats.Stats(pr).sort_stats(os.environ['VP_PROF']).print_stats(35)
        else:
            r = run_one(ob, inline)
    except MemoryError:
        r = dict(name=ob.name, function=ob.func, status='undecided', detail='memory', time=0)
    except BaseException as e:
        r = dict(name=ob.name, function=ob.func, status='undecided', detail='verifier error %s: %s %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:]), time=0)
    conn.send(r)
    conn.close()


def main(prop, tier, outp, only=None):
    budget = float(os.environ.get('VP_A_BUDGET', '540'))
    t0 = time.time()
    log = []
    try:
        mod = importlib.import_module('proofs.' + prop.lower())
    except Exception as e:
        json.dump(dict(obligations=[], log=['specification module failed: %s' % traceback.format_exc()[-1500:]]), open(outp, 'w'))
        return
    obs = [o for o in sys.modules['pyvc.prove'].OBLIGATIONS if (tier == 'thorough' or o.opts.get('tier') != 'thorough') and (only is None or only in o.name)]
    # parse the sources once (shared by the children)
    import ast
    results = pool(obs, tier, t0, budget)
    bad = set(o.name for o, r in zip(obs, results) if r['status'] != 'proved')
    again = [k for k, o in enumerate(obs) if any(u in bad for u in o.opts.get('uses', []))]
    if again:
        for k, r in zip(again, pool([obs[k] for k in again], tier, t0, budget, True)):
            results[k] = r
    report(results, log, t0, outp)


def pool(obs, tier, t0, budget, inline=False):
    given, obs = obs, sorted(obs, key=lambda o: -o.opts.get('cost', 1 if ('general' in o.name or 'conv' in o.name) else 0))     # long ones first
    results = [None] * len(obs)
    procs = {}
    nxt = 0
    per = 150 if tier == 'quick' else 900
    workers = int(os.environ.get('VP_WORKERS', '7'))
    while nxt < len(obs) or procs:
        while nxt < len(obs) and len(procs) < workers:
            if time.time() - t0 > budget:
                results[nxt] = dict(name=obs[nxt].name, function=obs[nxt].func, status='undecided', detail='time budget', time=0)
                nxt += 1
                continue
            r, w = multiprocessing.Pipe(False)
            p = multiprocessing.get_context('fork').Process(target=child, args=(obs[nxt], w, inline))
            p.start()
            w.close()
            procs[nxt] = (p, r, time.time())
            nxt += 1
        for k in list(procs):
            p, r, ts = procs[k]
            lim = obs[k].opts.get('timeout', per)
            if r.poll(0.01):
                try:
                    results[k] = r.recv()
                except EOFError:
                    results[k] = dict(name=obs[k].name, function=obs[k].func, status='undecided', detail='verifier process died', time=time.time() - ts)
                p.join()
                del procs[k]
            elif time.time() - ts > lim or time.time() - t0 > budget + 30:
                p.kill()
                p.join()
                results[k] = dict(name=obs[k].name, function=obs[k].func, status='undecided', detail='timeout after %d s' % (time.time() - ts), time=time.time() - ts)
                del procs[k]
        time.sleep(0.01)
    at = dict((id(o), r) for o, r in zip(obs, results))
    return [at[id(o)] for o in given]


def report(results, log, t0, outp):
    trusted, assume, funcs, byb = set(), set(), set(), {}
    q = st = 0
    for r in results:
        trusted |= set(r.pop('trusted', []))
        assume |= set(r.pop('assumptions', []))
        funcs |= set(r.pop('functions', []))
        for k, n in r.pop('backends', {}).items():
            byb[k] = byb.get(k, 0) + n
        q += r.pop('queries', 0)
        st += r.pop('solver_time', 0)
    json.dump(dict(obligations=results, trusted=sorted(trusted), assumptions=sorted(assume), functions=sorted(funcs), by_backend=byb, queries=q, solver_time=round(st, 2),
                   log=log, wall=round(time.time() - t0, 1)), open(outp, 'w'), indent=1)


if __name__ == '__main__':
    # proofs import pyvc.prove: make sure there is one registry
    import pyvc.prove as P
    P.main(sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else None)
