"""Shared vocabulary for blocks: a block with a recording integrator (see c18)."""
from pyvc.prove import *
from proofs.common import *

B = 'shooting_blocks:ShootingBlockBase'
CLIENT = '''
import torch
class Integ(object):
    def __init__(self):
        self.y = None
        self.calls = []
    def integrate(self, func, x0, t):
        self.calls.append((func, x0, t))
        if self.y is None:
            return torch.stack((x0, x0))
        return self.y

def join(ts):
    return torch.cat(tuple([t.reshape(-1) for t in ts]))

def pieces(y, like, times):
    res = []
    off = 0
    for t in like:
        n = t.numel()
        if times:
            res.append(y[:, off:off + n].reshape((y.size(0),) + tuple(t.size())))
        else:
            res.append(y[y.size(0) - 1][off:off + n].reshape(t.size()))
        off = off + n
    return res

def total(ts):
    r = 0
    for t in ts:
        r = r + t.numel()
    return r
'''


class Blk(object):
    def __init__(self, V, name, blockname='blk', times=False, model=(), **kw):
        self.V, self.name, self.times = V, name, times
        self.kind, self.keys = ALL[name][1], ALL[name][2]
        self.D = Dims(V, self.kind)
        stub_nl(V)
        self.m = make(V, name, self.D, **dict(model))
        self.c = V.define(CLIENT)
        self.it = V.call(self.c['Integ'])
        self.bn = blockname
        self.b = V.call(B, blockname, shooting_integrand=self.m, integrator=self.it, **kw)
        self.dim = 2 if self.kind == 'vec' else 1
        if times:
            self.T = V.dim('T', 2)
            self.tv = V.tensor('tv', [self.T])
            V.m(self.b, 'set_integration_time_vector', self.tv, suppress_warning=True)
        else:
            self.T = 2
        self.S = V.dim('S')

    def own(self):
        """particles and costates of the block: arbitrary values"""
        V = self.V
        out = []
        for a, tag in (('_state_parameter_dict', 'own'), ('_costate_parameter_dict', 'own')):
            d = V.attr(self.b, a)
            l = []
            for k, v in V.entries(d):
                t = V.tensor(tag + k, v.term.lead, grad=True)
                v.term = t.term
                l.append((self.bn, k, v))
            out.append(l)
        return out

    lead = ()

    def handed(self, name, d, other=''):
        """blocks handed over: states, costates, data of feature size d"""
        V, D = self.V, self.D
        D2 = Dims(V, self.kind)
        D2.d = d
        r = []
        for tag, pre, n in (('hs', '', None), ('hc', 'p_', None), ('hd', '', self.S)):
            sd = V.sdict([(pre + k, V.tensor('%s_%s_%s%s' % (tag, name, pre + k, other), (list(self.lead) if tag == 'hd' else []) + list(sh), grad=True)) for k, sh in shapes(self.name, D2, n).items()])
            r.append(sd)
        return r

    def x(self, name='x'):
        return self.V.tensor(name, shapes(self.name, self.D, self.S)['q1'], grad=True)

    def expect(self, groups, call, what):
        """the integrator gets the vector of all groups and what it returns is put under the name of the block"""
        V = self.V
        groups = [sorted(g, key=lambda x: (x[0], x[1])) for g in groups]
        flat = [x[-1] for g in groups for x in g]
        n = V.call(self.c['total'], PList(list(flat)))
        y = V.tensor('y', [self.T, simp(n)])
        V.set(self.it, 'y', y)
        V.set(self.it, 'calls', PList([]))
        sn = snap([x for g in groups for x in g])
        r = V.ex.force(call())
        V.true(isinstance(r, tuple) and len(r) == 4, what + ': data position, states, costates, data')
        calls = V.attr(self.it, 'calls')
        V.eqint(calls.length(), 1, what + ': one integration')
        f, x0, t = [V.ex.force(z) for z in V.ex.force(V.item(calls, 0))]
        V.is_(f, self.m, what + ': of the integrand')
        V.tensor_eq(x0, V.ex.force(V.call(self.c['join'], PList(list(flat)))), what + ': starts at particles, costates and data')
        if self.times:
            V.tensor_eq(t, self.tv, what + ': at the times asked for')
        else:
            V.tensor_eq(t, ([2], lambda i: ite(i == 0, ZERO, self.end())), what + ': from zero to the end time')
        pc = V.ex.force(V.call(self.c['pieces'], y, PList(list(flat)), self.times))
        pc = [V.item(pc, i) for i in range(len(flat))]
        q = 0
        for g, got, nm in zip(groups, r[1:], ('states', 'costates', 'data')):
            o = (1 if self.times else 0) + (len(self.lead) if nm == 'data' else 0)
            ks = []
            for x in g:
                if x[1] not in ks:
                    ks.append(x[1])
            want = []
            ps = pc[q:q + len(g)]
            q += len(g)
            for k in ks:
                want.append((self.bn, k, cat(V, [p for p, x in zip(ps, g) if x[1] == k], self.dim + o) if len(g) > len(ks) else [p for p, x in zip(ps, g) if x[1] == k][0]))
            same_list(V, flatten(V, V.ex.force(got)), want, '%s: final %s' % (what, nm))
            if nm == 'data':
                V.tensor_eq(V.ex.force(r[0]), [w[-1] for w in want if w[1] == 'q1'][0], what + ': data position')
        untouched(V, sn, what)
        return r

    def end(self):
        return getattr(self, 'tend', ONE)


def data(k, x):
    """data started from an input (contract of get_initial_data_dict_from_data_tensor: C21)"""
    return [(k.bn, n, t) for n, t in k.V.entries(k.V.m(k.m, 'get_initial_data_dict_from_data_tensor', x))]
