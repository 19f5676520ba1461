"""C16: the plateau scheduler reduces the learning rate exactly when it should.

The step contract is a transition relation over an arbitrary reachable state (invariant: 0 <= bad epochs <= patience, 0 <= cool-down
counter <= cooldown), so that with the contract of the constructor it covers every history of metrics."""
from pyvc.prove import *

M = 'custom_lr_scheduler:CustomReduceLROnPlateau'
INF = float('inf')
FIELDS = ['factor', 'optimizer', 'min_lrs', 'patience', 'verbose', 'cooldown', 'cooldown_counter', 'mode', 'threshold', 'threshold_mode', 'best', 'num_bad_epochs', 'mode_worse', 'is_better',
          'eps', 'last_epoch', 'convergence_reached']


def opt(V, lrs):
    c = V.define('from torch.optim import Optimizer\nclass Opt(Optimizer):\n    def __init__(self):\n        pass\n')
    o = V.call(c['Opt'])
    V.set(o, 'param_groups', PList([V.sdict([('lr', l)], 'dict') for l in lrs]))
    return o


class S(object):
    def __init__(self, V, G, mode, tmode, minlist=True, verbose=False):
        self.V, self.G = V, G
        self.lr = [V.real('lr%d' % i) for i in range(G)]
        self.min = [V.real('min%d' % i) for i in range(G)] if minlist else [V.real('min')] * G
        self.factor, self.thr, self.eps = V.real('factor'), V.real('threshold'), V.real('eps')
        self.patience, self.cooldown = V.int('patience', 0), V.int('cooldown', 0)
        V.assume(self.factor < 1, self.thr >= 0, self.thr < 1)
        self.o = opt(V, self.lr)
        self.mode, self.tmode = mode, tmode
        self.worse = INF if mode == 'min' else -INF
        self.kw = dict(mode=mode, factor=self.factor, patience=self.patience, verbose=verbose, threshold=self.thr, threshold_mode=tmode, cooldown=self.cooldown,
                       min_lr=PList(list(self.min)) if minlist else self.min[0], eps=self.eps)
        self.s = V.call(M, self.o, **self.kw)

    def lrs(self):
        return [self.V.ex.force(self.V.item(self.V.item(self.V.attr(self.o, 'param_groups'), i), 'lr')) for i in range(self.G)]

    def arbitrary(self, inf):
        V, s = self.V, self.s
        V.fields(s, FIELDS, 'scheduler')
        self.best = self.worse if inf else V.real('best')
        self.bad, self.cool, self.conv = V.int('bad', 0), V.int('cool', 0), z3.Bool('conv')
        V.assume(self.bad <= self.patience, self.cool <= self.cooldown)
        for n, v in (('best', self.best), ('num_bad_epochs', self.bad), ('cooldown_counter', self.cool), ('convergence_reached', self.conv), ('last_epoch', V.int('epoch', -1))):
            V.set(s, n, v)

    def spec(self, a):
        """state after a step with metric a: (best is the worst value, best, bad, cool, conv, lrs)"""
        t, b = self.thr, self.best
        if isinstance(b, float):
            better = z3.BoolVal(True)
        elif self.mode == 'min':
            better = a < (b * (1 - t) if self.tmode == 'rel' else b - t)
        else:
            better = a > (b * (1 + t) if self.tmode == 'rel' else b + t)
        bad = z3.If(better, 0, self.bad + 1)
        cool = z3.If(self.cool > 0, self.cool - 1, self.cool)
        bad = z3.If(self.cool > 0, 0, bad)
        red = bad > self.patience
        lrs, ch = [], []
        for l, m in zip(self.lr, self.min):
            new = z3.If(l * self.factor < m, m, l * self.factor)
            c = z3.And(red, l - new > self.eps)
            ch.append(c)
            lrs.append(z3.If(c, new, l))
        worst = z3.Or(*ch) if not isinstance(b, float) else z3.Or(z3.Not(better), *ch)
        best = a if isinstance(b, float) else z3.If(better, a, b)
        conv = z3.Or(self.conv, z3.And(red, z3.Or(*[z3.Not(c) for c in ch])))
        return worst, best, z3.If(red, 0, bad), z3.If(red, self.cooldown, cool), conv, lrs

    def check(self, exp):
        V, s = self.V, self.s
        worst, best, bad, cool, conv, lrs = exp
        for i, (l, w) in enumerate(zip(self.lrs(), lrs)):
            V.true(simp(ext.zr(l) == ext.zr(w)), 'learning rate of group %d' % i)
        c = V.ex.force(V.m(s, 'has_convergence_been_reached'))
        V.true(simp((z3.BoolVal(c) if isinstance(c, bool) else c) == conv), 'convergence reported')
        g = V.attr(s, 'best')
        if isinstance(g, float):
            V.true(g == self.worse, 'improvement is judged afresh')
            V.true(simp(worst), 'best metric is kept')
        else:
            V.true(simp(z3.And(z3.Not(worst), ext.zr(g) == ext.zr(best))), 'best metric')
        V.true(simp(zi(V.attr(s, 'num_bad_epochs')) == bad), 'number of steps without improvement')
        V.true(simp(zi(V.attr(s, 'cooldown_counter')) == cool), 'cool-down')
        V.true(simp(z3.And(bad >= 0, bad <= self.patience, cool >= 0, cool <= self.cooldown)), 'invariant')


def mk(mode, tmode):
    for G in (1, 2):
        for inf in (True, False):
            @obligation('step[%s,%s,%d group%s,%s]' % (mode, tmode, G, 's'[:G - 1], 'nothing seen yet' if inf else 'any best metric'), 'CustomReduceLROnPlateau.step, _reduce_lr, _cmp, _reset',
                        scope='any metric and any state, all settings (0 <= threshold < 1, patience, cooldown >= 0), %d parameter group(s) (bounded)' % G)
            def _(V, G=G, inf=inf):
                x = S(V, G, mode, tmode)
                x.arbitrary(inf)
                a = V.real('metric')
                exp = x.spec(a)
                V.m(x.s, 'step', a)
                V.fields(x.s, FIELDS + ['current'], 'scheduler')
                x.check(exp)

    @obligation('constructor[%s,%s]' % (mode, tmode), 'CustomReduceLROnPlateau.__init__, _init_is_better', scope='all settings, two groups (bounded)')
    def _(V):
        for ml in (True, False):
            x = S(V, 2, mode, tmode, minlist=ml)
            V.true(V.attr(x.s, 'best') == x.worse, 'nothing seen yet')
            V.eqint(V.attr(x.s, 'num_bad_epochs'), 0, 'no bad steps')
            V.eqint(V.attr(x.s, 'cooldown_counter'), 0, 'not cooling down')
            V.true(V.m(x.s, 'has_convergence_been_reached') is False, 'not converged')
            ms = V.attr(x.s, 'min_lrs')
            for i in range(2):
                V.true(simp(ext.zr(V.item(ms, i)) == x.min[i]), 'lower bound of each group')
                V.true(simp(ext.zr(x.lrs()[i]) == x.lr[i]), 'learning rates untouched')

    @obligation('saved and loaded state[%s,%s]' % (mode, tmode), 'state_dict, load_state_dict', scope='any state; loaded into a scheduler of any settings, one group (bounded)')
    def _(V):
        x = S(V, 1, mode, tmode)
        x.arbitrary(False)
        d = V.m(x.s, 'state_dict')
        V.assume(V.real('f2') < 1)
        y = V.call(M, x.o, 'max' if mode == 'min' else 'min', V.real('f2'), V.int('p2', 0), False, V.real('t2'), 'abs' if tmode == 'rel' else 'rel')
        V.m(y, 'load_state_dict', d)
        x.s = y
        a = V.real('metric')
        exp = x.spec(a)
        V.m(y, 'step', a)
        x.check(exp)


for mode in ('min', 'max'):
    for tmode in ('rel', 'abs'):
        mk(mode, tmode)


@obligation('invalid options are refused', 'CustomReduceLROnPlateau.__init__', scope='any values')
def _(V):
    o = opt(V, [V.real('lr0')])
    f = V.real('factor')
    V.assume(f < 1)
    b = V.real('bad')
    V.assume(b >= 1)
    V.raises(lambda: V.call(M, o, factor=b), 'factor >= 1', ['ValueError'])
    V.raises(lambda: V.call(M, o, mode='x', factor=f), 'mode', ['ValueError'])
    V.raises(lambda: V.call(M, o, threshold_mode='x', factor=f), 'threshold mode', ['ValueError'])
    V.raises(lambda: V.call(M, o, factor=f, min_lr=PList([b, b])), 'number of lower bounds', ['ValueError'])
    V.raises(lambda: V.call(M, PList([]), factor=f), 'not an optimizer', ['TypeError'])


class Groups(object):
    """an optimizer with any number of parameter groups"""

    def __init__(self, V):
        self.V = V
        self.n = V.dim('G', 0)
        self.f = z3.Function('rate', z3.IntSort(), z3.RealSort())
        self.low = z3.Function('lowest', z3.IntSort(), z3.RealSort())
        j = z3.Int('g!j')
        self.template = V.sdict([('lr', self.f(j))], 'dict')
        Heap.objs.remove(self.template)
        self.fam = Fam(self.template, [j])
        self.groups = PList(segs=[Seg(0, self.n, j, FamRef(self.fam, [j]))])
        self.mins = PList(segs=[Seg(0, self.n, j, self.low(j))])

    def lr(self, j):
        return ext.zr(self.V.ex.force(self.V.item(self.V.ex.force(FamRef(self.fam, [zi(j)])), 'lr')))


class AnyS(S):
    def __init__(self, V, mode, tmode, minlist):
        self.V, self.mode, self.tmode = V, mode, tmode
        self.g = g = Groups(V)
        self.min1 = V.real('min')
        self.low = g.low if minlist else (lambda j: self.min1)
        self.factor, self.thr, self.eps = V.real('factor'), V.real('threshold'), V.real('eps')
        self.patience, self.cooldown = V.int('patience', 0), V.int('cooldown', 0)
        V.assume(self.factor < 1, self.thr >= 0, self.thr < 1)
        self.o = opt(V, [])
        V.set(self.o, 'param_groups', g.groups)
        self.worse = INF if mode == 'min' else -INF
        self.s = V.call(M, self.o, mode=mode, factor=self.factor, patience=self.patience, threshold=self.thr, threshold_mode=tmode, cooldown=self.cooldown,
                        min_lr=g.mins if minlist else self.min1, eps=self.eps)
        self.some, self.other = z3.Bool('some group is reduced'), z3.Bool('some group is not reduced')
        self.loops = 0

    def new(self, j):
        l, m = self.g.f(j), self.low(j)
        return z3.If(l * self.factor < m, m, l * self.factor)

    def changed(self, j):
        return self.g.f(j) - self.new(j) > self.eps

    def get(self):
        V, s = self.V, self.s
        return dict((n, V.attr(s, n)) for n in ('best', 'num_bad_epochs', 'cooldown_counter', 'convergence_reached'))

    def earlier(self, st, ch, conv):
        """the state once some of the groups are done: reset if one of them was reduced (ch), converged if conv"""
        V = self.V
        if V.ex.branch(ch):
            st = dict(st, best=self.worse, num_bad_epochs=0, cooldown_counter=0)
        st = dict(st, convergence_reached=conv)
        for n, v in st.items():
            V.set(self.s, n, v)
        return st

    def __call__(self, ex, lo, hi, body, fr):
        """loop rule.  Invariant: the groups done so far have their new rates, the others their old ones; the scheduler is reset iff one
        of them was reduced, and converged iff it was before or one of them was not reduced"""
        from pyvc import loops
        V, g = self.V, self.g
        if not (is_z3(hi) and zi(hi).eq(g.n) and isinstance(lo, int) and lo == 0):
            r = loops.sym_for(ex, lo, hi, body, fr)
            ex.for_inv = self
            return r
        self.loops += 1
        if self.loops > 1:
            raise Unsupported('a second loop over the groups')
        st = self.get()
        conv0 = st['convergence_reached']
        if ex.branch(z3.Bool('inductive step')):
            st = self.earlier(st, z3.Bool('an earlier group is reduced'), z3.Bool('converged earlier'))
            it = ex.fresh_int('it')
            ex.ctx.stack += [it >= 0, it < g.n]
            ex.ctx.index.append(it)
            n0 = Heap.ctr
            st0 = loops.state_of(ex, n0)
            body(it)
            st1 = loops.state_of(ex, n0)
            mine = ('best', 'num_bad_epochs', 'cooldown_counter', 'convergence_reached')
            for l in st1:
                if l[0] in ('list', 'dict', 'attr', 'glob', 'tens', 'flags') and not (l[0] == 'attr' and l[2] in mine) and not loops.same(st0.get(l), st1[l]):
                    raise Unsupported('the loop over the groups carries something else: %s' % (l,))
            c = self.changed(it)
            V.true(simp(g.lr(it) == z3.If(c, self.new(it), g.f(it))), 'learning rate of the group')
            now = self.get()
            b = now['best']
            if isinstance(st['best'], float) or isinstance(b, float):
                if isinstance(b, float):
                    V.true(b == self.worse and (isinstance(st['best'], float) or simp(c)), 'improvement is judged afresh')
                else:
                    V.fail('best metric')
            else:
                V.true(simp(z3.And(z3.Not(c), ext.zr(b) == ext.zr(st['best']))), 'best metric')
            for n in ('num_bad_epochs', 'cooldown_counter'):
                V.true(simp(zi(now[n]) == z3.If(c, 0, zi(st[n]))), n)
            V.true(simp(as_bool(now['convergence_reached']) == z3.Or(as_bool(st['convergence_reached']), z3.Not(c))), 'convergence')
            m = ex.fresh_int('m')
            ex.ctx.stack += [m >= 0, m < g.n, m != it]
            ex.ctx.index.append(m)
            V.true(simp(g.lr(m) == g.f(m)), 'the other groups are untouched')
            raise PathEnd()
        i = z3.Int('g!i')
        w, u = ex.fresh_int('w'), ex.fresh_int('u')
        ex.ctx.stack += [z3.Implies(self.some, z3.And(w >= 0, w < g.n, self.changed(w))), z3.Implies(self.other, z3.And(u >= 0, u < g.n, z3.Not(self.changed(u))))]
        ex.ctx.foralls.append((z3.IntVal(0), g.n, i, lambda t: z3.If(self.changed(t), self.some, self.other)))
        self.earlier(st, self.some, simp(z3.Or(as_bool(conv0), self.other)))
        j = g.fam.ivars[0]
        g.template.ents = list(self.V.sdict([('lr', z3.If(self.changed(j), self.new(j), g.f(j)))], 'dict').ents)
        return None

    def check(self, a):
        V, s, g = self.V, self.s, self.g
        t, b = self.thr, self.best
        if isinstance(b, float):
            better = z3.BoolVal(True)
        elif self.mode == 'min':
            better = a < (b * (1 - t) if self.tmode == 'rel' else b - t)
        else:
            better = a > (b * (1 + t) if self.tmode == 'rel' else b + t)
        bad = z3.If(better, 0, self.bad + 1)
        cool = z3.If(self.cool > 0, self.cool - 1, self.cool)
        bad = z3.If(self.cool > 0, 0, bad)
        red = bad > self.patience
        m = V.ex.fresh_int('m')
        V.ex.ctx.stack += [m >= 0, m < g.n]
        V.ex.ctx.index.append(m)
        V.true(simp(g.lr(m) == z3.If(z3.And(red, self.changed(m)), self.new(m), g.f(m))), 'learning rate of every group')
        V.true(simp(as_bool(V.ex.force(V.m(s, 'has_convergence_been_reached'))) == z3.Or(self.conv, z3.And(red, self.other))), 'convergence reported iff a group was not reduced')
        q = V.attr(s, 'best')
        if isinstance(q, float):
            V.true(q == self.worse, 'improvement is judged afresh')
            V.true(simp(z3.And(red, self.some)), 'best metric is kept')
        else:
            V.true(simp(z3.And(z3.Not(z3.And(red, self.some)), ext.zr(q) == ext.zr(a if isinstance(b, float) else z3.If(better, a, b)))), 'best metric')
        V.true(simp(zi(V.attr(s, 'num_bad_epochs')) == z3.If(red, 0, bad)), 'number of steps without improvement')
        V.true(simp(zi(V.attr(s, 'cooldown_counter')) == z3.If(red, self.cooldown, cool)), 'cool-down')


def as_bool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


for mode in ('min', 'max'):
    for tmode in ('rel', 'abs'):
        for inf in (True, False):
            @obligation('step[%s,%s,%s]: any number of groups' % (mode, tmode, 'nothing seen yet' if inf else 'any best metric'), 'CustomReduceLROnPlateau.step, _reduce_lr, _cmp, _reset',
                        scope='any metric and any state, all settings, any number of parameter groups (induction over the groups)', helper=True)
            def _(V, mode=mode, tmode=tmode, inf=inf):
                x = AnyS(V, mode, tmode, minlist=not inf)
                x.arbitrary(inf)
                a = V.real('metric')
                V.ex.for_inv = x
                V.m(x.s, 'step', a)
                V.ex.for_inv = None
                x.check(a)

        @obligation('constructor[%s,%s]: any number of groups' % (mode, tmode), 'CustomReduceLROnPlateau.__init__, _init_is_better', scope='all settings, any number of groups')
        def _(V, mode=mode, tmode=tmode):
            for ml in (True, False):
                x = AnyS(V, mode, tmode, minlist=ml)
                V.true(V.attr(x.s, 'best') == x.worse, 'nothing seen yet')
                V.eqint(V.attr(x.s, 'num_bad_epochs'), 0, 'no bad steps')
                V.eqint(V.attr(x.s, 'cooldown_counter'), 0, 'not cooling down')
                V.true(V.m(x.s, 'has_convergence_been_reached') is False, 'not converged')
                m = V.ex.fresh_int('m')
                V.ex.ctx.stack += [m >= 0, m < x.g.n]
                V.ex.ctx.index.append(m)
                V.true(simp(x.g.lr(m) == x.g.f(m)), 'learning rates untouched')
                V.true(simp(ext.zr(V.ex.force(V.item(V.attr(x.s, 'min_lrs'), m))) == x.low(m)), 'lower bound of each group')
