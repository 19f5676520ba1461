"""Concrete evaluation of symbolic results: used to confirm that an obligation that could not be proved really fails
(a counterexample with concrete sizes and values), and to cross-check the engine against CPython/torch."""
import math
import random
from .terms import *
from . import sigma


class NoValue(Exception):
    pass


def rnd(key):
    return random.Random(key).uniform(-1.5, 1.5)


FUN = {'exp': math.exp, 'tanh': math.tanh, 'sigmoid': lambda x: 1 / (1 + math.exp(-x)), 'relu': lambda x: max(x, 0.0), 'step': lambda x: 1.0 if x >= 0 else 0.0, 'iszero': lambda x: 1.0 if x == 0 else 0.0,
       'sin': math.sin, 'cos': math.cos, 'abs': abs, 'sqrt': math.sqrt, 'log2': math.log2, 'log': math.log, 'softplus': lambda x: math.log1p(math.exp(x)),
       'nl': lambda x: x + 0.3 * x * x - 0.2 * x ** 3, 'dnl': lambda x: 1 + 0.6 * x - 0.6 * x * x}


class Env(object):
    def __init__(self, model=None, ints=None, values=None, salt='', axioms=None):
        self.axioms = axioms or {}
        self.checked = {}
        self.salt = salt
        self.model = model
        self.ints = dict(ints or {})        # name -> int
        self.values = values or {}          # tensor name -> callable(idx tuple) -> float
        self.budget = 300000

    def zint(self, t):
        if isinstance(t, int):
            return t
        t = self.sub(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.model is not None:
            v = self.model.eval(t, model_completion=True)
            v = z3.simplify(v)
            if z3.is_int_value(v):
                return v.as_long()
        raise NoValue('int %s' % t)

    def sub(self, t):
        if self.ints:
            fc = free_consts(t)
            pairs = [(c, z3.IntVal(self.ints[c.decl().name()])) for c in fc if c.decl().name() in self.ints]
            if pairs:
                t = z3.substitute(t, *pairs)
        t = z3.simplify(t)
        if self.axioms or PS.reg:
            t = self.resolve(t)
        return t

    def resolve(self, t):
        """prefix sums by their definition; sizes only where they satisfy their precondition"""
        byfun = None
        for _ in range(50):
            xs = apps_of(t)
            if not xs:
                return t
            if byfun is None:
                byfun = dict((r[0].name(), r) for r in PS.reg.values())
            ps = [x for x in xs if x.decl().name() in byfun]
            inner = [x for x in ps if not any(y.decl().name() in byfun for c in x.children() for y in apps_of(c))]
            if not inner:
                break
            pairs = []
            for x in inner:
                f, canon, params, cb, _nn = byfun[x.decl().name()]
                args = [self.zint(c) for c in x.children()]
                k = (x.decl().name(), tuple(args))
                if k not in self.checked:
                    if args[-1] < 0 or args[-1] > 200:
                        raise NoValue('prefix sum')
                    v = 0
                    for j in range(args[-1]):
                        self.budget -= 1
                        v += self.zint(z3.substitute(cb, *([(canon, z3.IntVal(j))] + [(p, z3.IntVal(a)) for p, a in zip(params, args[:-1])])))
                    self.checked[k] = v
                pairs.append((x, z3.IntVal(self.checked[k])))
            t = z3.simplify(z3.substitute(t, *pairs))
        if self.axioms and self.model is not None:
            for x in apps_of(t):
                n = x.decl().name()
                if n in self.axioms:
                    args = tuple(z3.simplify(self.model.eval(c, model_completion=True)) for c in x.children())
                    k = (n, tuple(a.sexpr() for a in args))
                    if k not in self.checked:
                        ax = self.axioms[n](*args)
                        self.checked[k] = ax is True or not isinstance(ax, bool) and z3.is_true(z3.simplify(self.model.eval(ax, model_completion=True)))
                    if not self.checked[k]:
                        raise NoValue('size outside of its range')
        return t

    def zbool(self, t):
        if isinstance(t, bool):
            return t
        t = self.sub(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.model is not None:
            v = z3.simplify(self.model.eval(t, model_completion=True))
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
        raise NoValue('bool %s' % t)

    def zreal(self, t):
        t = self.sub(t)
        if self.model is not None and not z3.is_rational_value(t):
            t = z3.simplify(self.model.eval(t, model_completion=True))
        if z3.is_rational_value(t):
            return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_algebraic_value(t):
            a = t.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        raise NoValue('real %s' % t)


def ev(e, env):
    env.budget -= 1
    if env.budget < 0:
        raise NoValue('budget')
    o, a = e.op, e.args
    if o == 'num':
        return float(a[0])
    if o == 'int':
        return float(env.zint(a[0]))
    if o == 'real':
        return env.zreal(a[0])
    if o == 'det':
        return ev(a[0], env)
    if o == 'ind':
        return 1.0 if env.zbool(a[0]) else 0.0
    if o == 'app':
        if a[0] in sigma.LEAFDEFS and a[0] not in env.values:
            return ev(sigma.leaf_elem(a[0], a[1]), env)
        idx = tuple(env.zint(x) for x in a[1])
        f = env.values.get(a[0])
        if f is not None:
            return float(f(idx))
        return rnd('%s|%s|%s' % (a[0], idx, env.salt))
    if o == 'add':
        return sum(ev(x, env) for x in a)
    if o == 'mul':
        r = 1.0
        for x in a:
            r *= ev(x, env)
        return r
    if o == 'pow':
        return ev(a[0], env) ** a[1]
    if o == 'inv':
        v = ev(a[0], env)
        if v == 0:
            raise NoValue('division by zero')
        return 1.0 / v
    if o == 'fn':
        if a[0] not in FUN:
            raise NoValue(a[0])
        return FUN[a[0]](ev(a[1], env))
    if o == 'ite':
        return ev(a[1] if env.zbool(a[0]) else a[2], env)
    if o == 'sum':
        hi = env.zint(a[1])
        nm = a[0].decl().name()
        old = env.ints.get(nm)
        s = 0.0
        for k in range(hi):
            env.ints[nm] = k
            s += ev(a[2], env)
        if old is None:
            env.ints.pop(nm, None)
        else:
            env.ints[nm] = old
        return s
    if o == 'pick':
        t, idx = a
        kw = t.kw
        d = kw['dim']
        k = env.zint(idx[d])
        n = env.zint(zi(kw['n']))
        off = 0
        for c in range(n):
            b = tsubst(kw['body'], [(kw['ivar'], z3.IntVal(c))])
            ln = env.zint(zi(b.lead[d]))
            if k < off + ln:
                j = list(idx)
                j[d] = z3.IntVal(k - off)
                return ev(sigma.elem(b, j), env)
            off += ln
        raise NoValue('pick')
    raise NoValue(o)


def tensor_value(t, env):
    """nested list of the elements of a tensor term with explicit shape"""
    if t.tail is not None:
        raise NoValue('opaque shape')
    dims = [env.zint(zi(d)) for d in t.lead]

    def rec(pre):
        if len(pre) == len(dims):
            return ev(sigma.elem(t, [z3.IntVal(i) for i in pre]), env)
        return [rec(pre + [i]) for i in range(dims[len(pre)])]
    return rec([])
