"""C19: freezing affects exactly the named parameters; counts are exact."""
import itertools, z3
from proofs.common import *

U = 'utils:'


def module(V, n, flags, nested=False):
    """a module with n parameters of arbitrary sizes (0 to 3 dimensions) and the given trainability"""
    c = V.define('import torch.nn as nn\nclass Mod(nn.Module):\n    def __init__(self):\n        super(Mod, self).__init__()\n')['Mod']
    m = V.call(c)
    sub_ = V.call(c) if nested else None
    ps = []
    for j in range(n):
        p = PTensor(tvar('P%d' % j, (), [V.dim("n%d_%d" % (j, q), 0) for q in range(j % 4)]), param=True, requires_grad=flags[j])
        nm = 'abcdef'[j]
        if nested and j == n - 1:
            V.m(sub_, 'register_parameter', nm, p)
            V.m(m, 'add_module', 'sub', sub_)
            nm = 'sub.' + nm
        else:
            V.m(m, 'register_parameter', nm, p)
        ps.append((nm, p, p.term))
    return m, ps


def flag(V, p):
    return V.attr(p, 'requires_grad')


for n in (1, 2, 3, 4):
    @obligation('freezing and unfreezing, %d parameters' % n, 'freeze_parameters, unfreeze_parameters', scope='any state of trainability, any list of names, parameters of any sizes; %d parameters (bounded)' % n)
    def _(V, n=n):
        for flags in itertools.product((True, False), repeat=n):
            for r in range(n + 1):
                for names in itertools.combinations(range(n), r):
                    for f, val in (('freeze_parameters', False), ('unfreeze_parameters', True)):
                        m, ps = module(V, n, flags, nested=n > 1)
                        nm = [ps[j][0] for j in names]
                        V.call(U + f, m, PList(nm[::-1]))
                        V.true([flag(V, p) for _, p, _ in ps] == [val if j in names else flags[j] for j in range(n)], '%s sets exactly the named parameters' % f)
                        V.true(all(p.term is t for _, p, t in ps), 'values unchanged')

    @obligation('unknown name, %d parameters' % n, 'freeze_parameters, unfreeze_parameters', scope='%d parameters (bounded)' % n)
    def _(V, n=n):
        m, ps = module(V, n, [True] * n)
        V.raises(lambda: V.call(U + 'freeze_parameters', m, PList(['nosuch'])), 'unknown name')
        V.raises(lambda: V.call(U + 'unfreeze_parameters', m, PList(['nosuch'])), 'unknown name')

    @obligation('counts, %d parameters' % n, 'compute_number_of_parameters', scope='any state of trainability, parameters of any sizes; %d parameters (bounded)' % n)
    def _(V, n=n):
        for flags in itertools.product((True, False), repeat=n):
            for pr in (False, True):
                m, ps = module(V, n, flags, nested=n > 1)
                r = dict(V.entries(V.call(U + 'compute_number_of_parameters', m, print_parameters=pr)))
                num_ = lambda keep: simp(sum([zi(t.numel()) for (nm, p, t), f in zip(ps, flags) if keep(f)], z3.IntVal(0)))
                V.true(sorted(r) == ['fixed', 'optimized', 'overall'], 'three counts')
                V.eqint(r['fixed'], num_(lambda f: not f), 'number of fixed entries')
                V.eqint(r['optimized'], num_(lambda f: f), 'number of optimised entries')
                V.eqint(r['overall'], num_(lambda f: True), 'number of entries')
                V.true([flag(V, p) for _, p, _ in ps] == list(flags), 'trainability untouched')


class Any(object):
    """a model with any number of parameters of any sizes: named_parameters() lists them"""

    def __init__(self, V):
        self.V = V
        self.n = V.dim('n', 0)
        self.key = z3.Function('pname', z3.IntSort(), KeySort)
        V.ex.ctx.injective['pname'] = 0
        self.rg = z3.Function('trainable', z3.IntSort(), z3.BoolSort())
        S = z3.Function('pshape', z3.IntSort(), ShapeSort)
        self.size = lambda j: OShape(S(zi(j))).numel()
        j = z3.Int('p!j')
        t = PTensor(tvar('P', (j,), [], OShape(S(j))), param=True, requires_grad=self.rg(j))
        Heap.objs.remove(t)
        self.fam = Fam(t, [j])
        self.m = V.call(V.define('class Model(object):\n    def __init__(self, l):\n        self.l = l\n    def named_parameters(self, *a, **k):\n        return list(self.l)\n'
                                 '    def parameters(self, *a, **k):\n        return [v for _, v in self.l]\n')['Model'],
                        PList(segs=[Seg(0, self.n, j, (self.key(j), FamRef(self.fam, [j])))]))

    def par(self, j):
        return self.V.ex.force(FamRef(self.fam, [j]))


class Each(object):
    """loop rule for a loop over the names: before any iteration the parameters are trainable in any way; the iteration
    does what `check` says; nothing else is carried from one iteration to the next"""

    def __init__(self, V, a, L, check):
        self.V, self.a, self.L, self.check, self.done = V, a, L, check, 0
        V.ex.for_inv = self

    def __call__(self, ex, lo, hi, body, fr):
        from pyvc import loops
        if not (is_z3(hi) and zi(hi).eq(self.L) and isinstance(lo, int) and lo == 0):
            r = loops.sym_for(ex, lo, hi, body, fr)
            ex.for_inv = self
            return r
        V, a = self.V, self.a
        if not ex.branch(zi(hi) > 0):
            return None
        self.done += 1
        it = V.ex.fresh_int('it')
        ex.ctx.stack += [it >= 0, it < zi(hi)]
        ex.ctx.index.append(it)
        g = z3.Function('before!%d' % self.done, z3.IntSort(), z3.BoolSort())
        for k in [k for k, o in ex.famcache.items() if o.famref.fam is a.fam]:
            del ex.famcache[k]
        j = a.fam.ivars[0]
        a.fam.template.flags = dict(a.fam.template.flags, requires_grad=g(j))
        n0 = Heap.ctr
        st0 = loops.state_of(ex, n0)
        body(it)
        st1 = loops.state_of(ex, n0)
        for l in st1:
            if l[0] in ('list', 'dict', 'attr', 'glob', 'tens', 'flags') and not loops.same(st0.get(l), st1[l]):
                raise Unsupported('the loop over the names carries something else: %s' % (l,))
        self.check(it, g)
        raise PathEnd()


for f, val in (('freeze_parameters', False), ('unfreeze_parameters', True)):
    @obligation('%s: any number of names and of parameters' % f, f, scope='any model, any list of names of its parameters, any state of trainability (induction over the list: every iteration sets the parameter of its name and no other)', helper=True)
    def _(V, f=f, val=val):
        a = Any(V)
        L = V.dim('L', 0)
        which = z3.Function('which', z3.IntSort(), z3.IntSort())
        V.ex.ctx.axioms['which'] = lambda j: z3.And(which(j) >= 0, which(j) < a.n)
        V.assume(z3.Or(L == 0, a.n >= 1))

        def check(it, g):
            p = a.par(which(it))
            V.true(V.attr(p, 'requires_grad'), 'the named parameter is set') if val else V.true(z3.Not(as_bool(V.attr(p, 'requires_grad'))), 'the named parameter is set')
            V.true(p.term.key() == V.ex.instantiate(FamRef(a.fam, [which(it)])).term.key(), 'its value is unchanged')
            m = V.ex.fresh_int('m')
            V.ex.ctx.stack += [m >= 0, m < a.n, m != which(it)]
            V.ex.ctx.index.append(m)
            q = a.par(m)
            V.true(as_bool(V.attr(q, 'requires_grad')) == g(m), 'no other parameter is touched')
            V.true(q.term.key() == V.ex.instantiate(FamRef(a.fam, [m])).term.key(), 'no other value is touched')
        e = Each(V, a, L, check)
        j = z3.Int('w!j')
        V.call(U + f, a.m, PList(segs=[Seg(0, L, j, a.key(which(j)))]))
        m = V.ex.fresh_int('m')
        V.ex.ctx.stack += [m >= 0, m < a.n]
        V.true(L == 0, 'only the empty list is without effect')
        V.true(as_bool(V.attr(a.par(m), 'requires_grad')) == a.rg(m), 'no names: nothing is touched')

    @obligation('%s: unknown name, any number of parameters' % f, f, scope='any model, one name that none of its parameters has')
    def _(V, f=f, val=val):
        a = Any(V)
        k = z3.Const('unknown', KeySort)
        i = z3.Int('u!i')
        V.ex.ctx.foralls.append((z3.IntVal(0), a.n, i, lambda t: a.key(t) != k))
        V.raises(lambda: V.call(U + f, a.m, PList([k])), 'unknown name')


def as_bool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


@obligation('counts, any number of parameters', 'compute_number_of_parameters', scope='any number of parameters of any numbers of entries, any state of trainability', helper=True)
def _(V):
    a = Any(V)
    r = dict(V.entries(V.call(U + 'compute_number_of_parameters', a.m)))
    V.true(sorted(r) == ['fixed', 'optimized', 'overall'], 'three counts')
    i = z3.Int('i!c')
    tot = lambda e: simp(zi(PS.get(i, e, nonneg=True)(a.n)))
    V.eqint(r['optimized'], tot(z3.If(a.rg(i), a.size(i), 0)), 'number of optimised entries')
    V.eqint(r['fixed'], tot(z3.If(a.rg(i), 0, a.size(i))), 'number of fixed entries')
    V.eqint(r['overall'], simp(zi(r['optimized']) + zi(r['fixed'])), 'number of entries')


@obligation('random seed', 'setup_random_seed', scope='any seed; every generator is seeded with a number determined by it (their own repeatability is assumed)')
def _(V):
    V.ex.effects = []
    s = V.int('seed', 0)
    V.call(U + 'setup_random_seed', s)
    got = dict((n, (a, k)) for n, a, k in V.ex.effects)
    for g in ('random.seed', 'numpy.random.seed', 'torch.manual_seed'):
        if g not in got:
            V.fail('generator %s is seeded' % g)
        a, k = got[g]
        a = list(a) + [v for q, v in k]
        V.true(bool(a) and (isinstance(a[0], int) or z3.is_int(a[0])), 'generator %s gets a number determined by the seed' % g)
    V.ex.effects = []
    V.call(U + 'setup_random_seed', -1)
    V.true(V.ex.effects == [], 'without a seed the generators are left alone')


@obligation('division by an optional weight', 'divide_by_if_not_none', scope='any tensor, any weight other than 0')
def _(V):
    t = V.tensor('t', [], tail=OShape(z3.Const('S', ShapeSort)))
    V.tensor_eq(V.call(U + 'divide_by_if_not_none', t, None), t, 'no weight')
    w = V.real('w')
    V.assume(w != 0)
    V.tensor_eq(V.call(U + 'divide_by_if_not_none', t, w), T.ew(V.ex, 'div', [t.term, num(w)]), 'divided by the weight')
