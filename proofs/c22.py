"""C22: observation hooks."""
from proofs.common import *

SC = 'all numbers of particles and data, in_features, inflation factors >= 1; any elementwise nonlinearity; any time; '


def recorder(log, name):
    def h(ex, a, k):
        log.append((name, [ex.force(x) for x in a], k))
        return None
    return interp.Bi('hook ' + name, h)


for nm, ana in (('simple', False), ('simple', True), ('updown', False), ('updown', True), ('second', False), ('conv', False)):
    for n in (0, 1, 2, 3):
        if n in (0, 3) and nm != 'simple':
            continue

        @obligation('hooks[%s%s]: %d hooks' % (nm, ',analytic' if ana else '', n), 'register_lagrangian_gradient_hook, set_custom_hook_data, compute_gradients', scope=SC + '%d hooks (bounded)' % n)
        def _(V, nm=nm, ana=ana, n=n):
            stub_nl(V)
            D = Dims(V, CAT[nm][1])
            m = make(V, nm, D, use_analytic_solution=ana)
            q = [V.sdict([('k', d)]) for d in (state(V, nm, D), state(V, nm, D, pre='p_'), state(V, nm, D, n=V.dim('n'), tag='x'))]
            t = tval(V, V.real('t'))
            data = V.sdict([('epoch', 3)], 'dict')
            V.m(m, 'set_custom_hook_data', data)
            log = []
            hs = [V.m(m, 'register_lagrangian_gradient_hook', recorder(log, str(i))) for i in range(n)]
            left = list(range(n))
            plain = make(V, nm, D, use_analytic_solution=ana)
            rp = V.ex.force(V.m(plain, 'compute_gradients', t, *q))
            order = [None] + ([1, 0, 2] if n == 3 else list(range(n)))
            for rm in order:
                if rm is not None:
                    V.m(hs[rm], 'remove')
                    left.remove(rm)
                for rep in range(2 if rm is None else 1):
                    del log[:]
                    r = V.ex.force(V.m(m, 'compute_gradients', t, *q))
                    V.true(isinstance(r, tuple) and len(r) == 4, 'four results')
                    V.true([x[0] for x in log] == [str(i) for i in left], 'every registered hook is called once, in order')
                    for _, a, k in log:
                        V.true(not k and len(a) == 10, 'ten arguments')
                        V.true(a[0] is V.ex.force(m), 'module')
                        V.tensor_eq(a[1], t, 'time')
                        for u, v, what in zip(a[2:5], q, ('states', 'costates', 'data')):
                            same_list(V, flatten(V, u), flatten(V, v), what)
                        for u, v, what in zip(a[5:8], r[:3], ('state', 'costate', 'data')):
                            same_list(V, flatten(V, u), flatten(V, v), 'derivatives: ' + what)
                        same_list(V, flatpars(V, a[8]), flatpars(V, r[3]), 'parameters')
                        V.true(a[9] is data, 'custom data')
                    if rep == 0 and rm is None and CAT[nm][1] == 'vec':
                        for u, v in zip(r[:3], rp[:3]):
                            same_list(V, flatten(V, u), flatten(V, v), 'hooks do not change the result')


@obligation('hooks: one function registered twice', 'register_lagrangian_gradient_hook, compute_gradients', scope=SC + 'one function registered twice, another one in between (bounded)')
def _(V):
    stub_nl(V)
    D = Dims(V)
    m = make(V, 'simple', D)
    q = [V.sdict([('k', d)]) for d in (state(V, 'simple', D), state(V, 'simple', D, pre='p_'), state(V, 'simple', D, n=V.dim('n'), tag='x'))]
    log = []
    h, o = recorder(log, 'h'), recorder(log, 'o')
    hs = [V.m(m, 'register_lagrangian_gradient_hook', f) for f in (h, o, h)]
    left = ['h', 'o', 'h']
    for rm in (None, 0, 1, 2):
        if rm is not None:
            V.m(hs[rm], 'remove')
            left[rm] = None
        del log[:]
        V.m(m, 'compute_gradients', tval(V, V.real('t')), *q)
        V.true([x[0] for x in log] == [x for x in left if x], 'every registration is called once, in order')


def layers(V, names, tag):
    po = []
    for j, k in enumerate(names):
        i, o = V.dim('i%d' % j), V.dim('o%d' % j)
        l = V.call('overwrite_classes:SNN_Linear', i, o)
        d = V.ex.force(V.m(l, 'get_parameter_dict'))
        ext.dict_set(V.ex, d, 'weight', V.tensor('W%s%s' % (tag, k), [o, i], grad=True))
        ext.dict_set(V.ex, d, 'bias', V.tensor('B%s%s' % (tag, k), [o], grad=True))
        po.append((k, l))
    return V.sdict(po)


KINDS = ('state', 'costate', 'data', 'dot_state', 'dot_costate', 'dot_data')


def group(V, name, nb, tag):
    return V.sdict([('blk%d' % b, V.sdict([(k, V.tensor('%s_%s_%d_%s' % (name, tag, b, k), [V.dim('n'), V.dim('p'), V.dim('f%d' % b)], grad=True)) for k in ('q1', 'q2')])) for b in range(nb)])


def same(V, rec, src, what):
    """what is recorded: the value, in storage of its own"""
    rec = V.ex.force(rec)
    V.tensor_eq(rec, src, what)
    V.true(T.root(rec) != T.root(V.ex.force(src)), what + ' does not change afterwards')
    V.true(not V.grads(rec), what + ' is data')


for nb in (1, 2):
    for ne in (1, 2):
        @obligation('recording hook: %d blocks, %d evaluations' % (nb, ne), 'parameter_evolution_hook, record_generic_dict_of_dicts', grad=False, scope='%d blocks with two entries of any size, two layers of any size, %d evaluations (bounded); any values' % (nb, ne))
        def _(V, nb=nb, ne=ne):
            rec = V.define('from collections import defaultdict\nd = defaultdict(list)\n')['d']
            evs = []
            for i in range(ne):
                t = tval(V, V.real('t%d' % i))
                gs = [group(V, k, nb, str(i)) for k in KINDS]
                po = layers(V, ['l1', 'l2'], str(i))
                evs.append((t, gs, po))
                before = snap([x for g in gs for x in flatten(V, g)] + flatpars(V, po))
                r = V.call('shooting_hooks:parameter_evolution_hook', None, t, *(gs + [po, rec]))
                V.true(V.ex.force(r) is None, 'returns nothing')
                untouched(V, before, 'what the hook is given')
            d = dict((k, V.ex.force(v)) for k, v in V.entries(rec))
            keys = set(['t', 'energy'] + ['blk%d.%s.%s' % (b, k, q) for b in range(nb) for k in KINDS for q in ('q1', 'q2')] + ['%s.%s' % (l, p) for l in ('l1', 'l2') for p in ('weight', 'bias')])
            V.true(keys <= set(d), 'every quantity is recorded')
            for k, v in d.items():
                V.eqint(ext._len(V.ex, [v], {}), ne, 'one entry of %s per evaluation' % k)
            for i, (t, gs, po) in enumerate(evs):
                V.eq(num(V.ex.force(V.item(d['t'], i))), sigma.elem(t.term, []), 'time')
                for g, nm in zip(gs, KINDS):
                    for b, dd in V.entries(g):
                        for k, v in V.entries(dd):
                            same(V, V.item(d['%s.%s.%s' % (b, nm, k)], i), v, 'recorded %s.%s.%s' % (b, nm, k))
                tot = num(0)
                for o, l in V.entries(po):
                    for k, p in V.entries(V.m(l, 'get_parameter_dict')):
                        same(V, V.item(d['%s.%s' % (o, k)], i), p, 'recorded parameter %s.%s' % (o, k))
                        tot = T.ew(V.ex, 'add', [tot, T.reduce_sum(V.ex, T.ew(V.ex, 'mul', [p.term, p.term]), list(range(p.term.nidx())))])
                e = V.ex.force(V.item(d['energy'], i))
                V.eq(sigma.elem(e.term, []) if isinstance(e, PTensor) else num(e), mul(num(Fraction(1, 2)), sigma.elem(tot, [])), 'energy')
                ns = V.entries(V.call('shooting_hooks:compute_parameter_norms', po))
                for k, v in ns:
                    V.true(k in d, 'norm %s is recorded' % k)
                    w = V.ex.force(V.item(d[k], i))
                    V.tensor_eq(w, v, 'recorded norm ' + k)


@obligation('recording hook: refuses other containers', 'parameter_evolution_hook', scope='dict, list, None')
def _(V):
    e = V.sdict([])
    for bad in (V.sdict([], 'dict'), V.list([]), None):
        V.raises(lambda: V.call('shooting_hooks:parameter_evolution_hook', None, tval(V, V.real('t')), e, e, e, e, e, e, e, bad), 'not a defaultdict', ['ValueError'])


# ---------------------------------------------------------------- any number of hooks
class Calls(object):
    """rule for the loop over the hooks: an iteration calls the hook of its turn once and changes nothing, so all of them are called in turn"""

    def __init__(self, V, n, log):
        self.V, self.n, self.log, self.done = V, n, log, 0
        V.ex.for_inv = self

    def __call__(self, ex, lo, hi, body, fr):
        from pyvc import loops
        if not (is_z3(hi) and zi(hi).eq(self.n) and isinstance(lo, int) and lo == 0):
            r = loops.sym_for(ex, lo, hi, body, fr)
            ex.for_inv = self
            return r
        ex.for_inv = self
        self.done += 1
        if self.done > 1:
            raise Unsupported('a second loop over the hooks')
        if self.log:
            self.V.fail('a hook is called before its turn')
        if not ex.branch(zi(hi) > 0):
            return None
        self.it = ex.fresh_int('it')
        ex.ctx.stack += [self.it >= 0, self.it < zi(hi)]
        ex.ctx.index.append(self.it)
        n0 = Heap.ctr
        st0 = loops.state_of(ex, n0)
        body(self.it)
        st1 = loops.state_of(ex, n0)
        for l in st1:
            if l[0] in ('list', 'dict', 'attr', 'glob', 'tens', 'flags') and not loops.same(st0.get(l), st1[l]):
                raise Unsupported('the loop over the hooks carries something: %s' % (l,))
        return None


for nm, ana in (('simple', False), ('simple', True), ('updown', False), ('updown', True), ('second', False), ('conv', False)):
    @obligation('hooks[%s%s]: any number of hooks' % (nm, ',analytic' if ana else ''), 'compute_gradients', scope=SC + 'any number of registered hooks (every turn of the loop calls its hook once and changes nothing)', helper=True)
    def _(V, nm=nm, ana=ana):
        stub_nl(V)
        D = Dims(V, CAT[nm][1])
        m = make(V, nm, D, use_analytic_solution=ana)
        q = [V.sdict([('k', d)]) for d in (state(V, nm, D), state(V, nm, D, pre='p_'), state(V, nm, D, n=V.dim('n'), tag='x'))]
        t = tval(V, V.real('t'))
        data = V.sdict([('epoch', 3)], 'dict')
        V.m(m, 'set_custom_hook_data', data)
        log = []

        def rec(ex, a, k):
            log.append((ex.force(a[0]), [ex.force(x) for x in a[1:]], k))
            return None
        cls = V.define('class Hook(object):\n    def __init__(self, rec, no):\n        self.rec = rec\n        self.no = no\n    def __call__(self, *a, **k):\n        self.rec(self.no, *a, **k)\n')['Hook']
        j = z3.Int('hook!j')
        h = V.call(cls, interp.Bi('hook', rec), j)
        Heap.objs.remove(h)
        n = V.dim('hooks', 0)
        ids = z3.Function('hookid', z3.IntSort(), z3.IntSort())
        V.ex.ctx.injective['hookid'] = 0
        if not isinstance(V.ex.force(V.attr(m, '_lagrangian_gradient_hooks')), PDict):
            raise Unsupported('how hooks are kept')
        V.set(m, '_lagrangian_gradient_hooks', PDict('OrderedDict', [Grp(0, n, j, ids(j), FamRef(Fam(h, [j]), [j]))]))
        c = Calls(V, n, log)
        r = V.ex.force(V.m(m, 'compute_gradients', t, *q))
        V.ex.for_inv = None
        V.true(isinstance(r, tuple) and len(r) == 4, 'four results')
        if not V.ex.branch(n > 0):
            V.true(not log, 'no hooks: no calls')
            return
        V.true(len(log) == 1, 'one call for each hook')
        no, a, k = log[0]
        V.eqint(no, c.it, 'in order of registration')
        V.true(not k and len(a) == 10, 'ten arguments')
        V.true(a[0] is V.ex.force(m), 'module')
        V.tensor_eq(a[1], t, 'time')
        for u, v, what in zip(a[2:5], q, ('states', 'costates', 'data')):
            same_list(V, flatten(V, u), flatten(V, v), what)
        for u, v, what in zip(a[5:8], r[:3], ('state', 'costate', 'data')):
            same_list(V, flatten(V, u), flatten(V, v), 'derivatives: ' + what)
        same_list(V, flatpars(V, a[8]), flatpars(V, r[3]), 'parameters')
        V.true(a[9] is data, 'custom data')
