"""Checks of the verifier itself (run by hand and by the thorough tier of C01):

1. every modelled tensor operation gives, for symbolic sizes instantiated with concrete ones, the numbers real torch gives;
2. wrong contracts are not accepted (each `bad` specification must not come out as proved, the matching `good` one must);
3. the partition lemma used for pack/unpack and join/split holds (proved by induction with z3).

usage: /opt/venv/bin/python tools/selftest.py [OUT.json]    exit 0: all as expected
"""
import json
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from pyvc import prove, neval, sigma, ext          # noqa
from pyvc.prove import V, Ob, run_one              # noqa
from pyvc.terms import *                           # noqa
from pyvc.objs import *                            # noqa
import torch                                       # noqa

SHAPES = dict(x=('n', 'm'), y=('n', 'm'), z=('m', 'k'), v=('m',), u=('n',), q=('n', 1, 'm'), p=('n', 1, 'm'), w=('n', 'm', 'h', 'k'), s=(), W=('k', 'm'), B=('k',), o=(1, 'm'))
OPS = '''
x+y
x-2*y
x*y/ (1+y*y)
-x
x**2
x+v
v+x
2.0/(3.0+x*x)
x/s
x*o
x-o
x.t()
x.transpose(0,1)
w.transpose(1,3)
w.transpose(-1,-2)
w.permute(3,0,2,1)
x.sum()
x.sum(dim=0)
x.sum(dim=1)
x.sum(1,keepdim=True)
x.mean()
x.mean(dim=0)
x.mean(dim=1,keepdim=True)
w.sum(dim=(0,2))
w.mean(dim=(1,3))
torch.sum(w,dim=(2,3))
torch.mean(x*y)
x.matmul(z)
x@z
torch.matmul(x,z)
torch.mm(x,z)
q.matmul(z)
torch.matmul(q,z)
torch.bmm(q.transpose(1,2),p)
torch.matmul(q.transpose(1,2),p)
x.matmul(v)
torch.einsum('ij,ij->i',x,y)
torch.einsum('ij,jk->ik',x,z)
torch.dot(v,o[0])
torch.outer(u,v)
x.unsqueeze(0)
x.unsqueeze(1)
x.unsqueeze(-1)
q.squeeze(1)
q.squeeze(dim=1)
o.squeeze(0)
x.view(-1)
x.reshape(-1)
x.contiguous().view(-1)
q.view(-1)
q.reshape(q.shape[0],q.shape[2])
w.view(w.shape[0],-1)
w.flatten(1)
w.flatten()
w.reshape(w.shape[0]*w.shape[1],w.shape[2],w.shape[3])
torch.cat((x,y))
torch.cat((x,y),dim=1)
torch.cat([q,p],dim=2)
torch.cat((x,y,x),dim=0)
torch.stack((x,y))
torch.stack((x,y),dim=1)
torch.stack([x,y],dim=2)
x[0]
x[-1]
x[0,...]
x[:,0]
x[...,0]
w[:,:,0,...]
w[:,0,:,0]
w[...,-1]
x[0:1]
x[1:]
x[:-1]
w[:,:,1:,...]
w[:,:,1::2,...]
w[:,:,:,(w.shape[3]%2)::2]
x[None]
x[:,None]
x.expand(3,-1,-1)
o.expand(x.shape[0],-1)
o.repeat(3,1)
o.repeat(2,3)
q.expand(-1,4,-1)
torch.zeros_like(x)
torch.ones_like(x)*3
torch.zeros(x.shape)+x
torch.ones(x.shape[0],x.shape[1])*x
torch.full_like(x,2.5)
torch.zeros(q.size())
x.new_zeros(x.shape[1])
torch.tanh(x)
torch.sigmoid(x)
torch.relu(x)
x.relu()
torch.nn.functional.relu(x)
torch.exp(x)
torch.sin(x)
torch.cos(x)
torch.abs(x)
x.abs()
torch.sqrt(x*x+1)
torch.log(x*x+1)
torch.log2(x*x+1)
torch.where(x>0,x,y)
torch.clamp(x,min=0.0)
(x>0).float()*y
(x>=y).float()
x.pow(2)
torch.pow(x,3)
x.detach()*y
x.clone()+y
x.float()*2
torch.nn.functional.linear(x,W)
torch.nn.functional.linear(x,W,B)
torch.nn.functional.linear(q,W,B)
torch.chunk(w,1,dim=1)[0]
torch.split(x,1,dim=0)[0]
torch.unbind(o,dim=0)[0]
torch.diff(v)
torch.diff(x,dim=0)
torch.flip(x,[0])
torch.tril(torch.ones(x.shape[1],x.shape[1]))
torch.eye(x.shape[1])
torch.diag(v)
torch.diagonal(torch.matmul(x.t(),x))
torch.trace(torch.matmul(x.t(),x))
torch.norm(x)**2
torch.norm(x,p='fro')**2
torch.cumsum(v,0)
torch.tensor(1.5)*x
torch.tensor([0,1]).float()
x.size(0)*x
x.numel()*x
x.shape[-1]*y
len(x)*y
x.dim()*y
x.select(1,0)
x.narrow(0,0,1)
torch.broadcast_tensors(x,o)[1]
x.expand_as(x)
o.expand_as(x)
x.view_as(y)
torch.add(x,y)
torch.mul(x,y)
torch.sub(x,y)
torch.div(x,1+y*y)
torch.neg(x)
torch.square(x)
torch.addmm(x.sum(0)[0]*torch.ones(x.shape[0],z.shape[1]),x,z)
torch.transpose(w,0,1)
w.movedim(1,3)
torch.movedim(w,0,2)
w.swapaxes(0,1)
x.T
x.masked_fill(x>0,0.0)
torch.maximum(x,y)
torch.minimum(x,y)
sum([x,y,x])
torch.stack([x[i] for i in range(1)])
'''
GRADS = '''
(torch.tanh(x)*y).sum()
(x.matmul(z)**2).sum()
(x*x*y).mean()
(torch.cat((x,y),dim=0)**3).sum()
(torch.sigmoid(x.matmul(z)).sum(dim=0)**2).sum()
(x.transpose(0,1).matmul(y)**2).sum()
(x/(1+y*y)).sum()+(x[0]**2).sum()
(torch.nn.functional.linear(torch.relu(x),W,B)**2).sum()
(x.view(-1)**2).sum()*s
((x*o)**2).sum()
(torch.sum(x,dim=1,keepdim=True)*y).sum()
(x.mean(dim=0)**2).sum()
(x.detach()*x).sum()
'''


def concrete(name, dims, ints, salt):
    shp = [d if isinstance(d, int) else ints[d] for d in dims]

    def rec(pre):
        if len(pre) == len(shp):
            return neval.rnd('%s|%s|%s' % (name, tuple(pre), salt))
        return [rec(pre + [i]) for i in range(shp[len(pre)])]
    return torch.tensor(rec([]), dtype=torch.float64)


def differential(expr, grad, log):
    """symbolic result instantiated = torch's result"""
    used = [a for a in SHAPES if __import__('re').search(r'(?<![A-Za-z_.])%s(?![A-Za-z_(\'])' % a, expr)]
    args = ','.join(used)
    fn = 'def f(%s): return %s' % (args, expr)
    trials = [dict(n=3, m=4, k=2, h=5), dict(n=2, m=2, k=3, h=2), dict(n=4, m=3, k=5, h=3), dict(n=1, m=5, k=1, h=4), dict(n=2, m=1, k=2, h=1)]
    got = {}

    def body(V):
        V.ex.ctx  # noqa
        sz = dict((d, V.dim(d)) for d in 'nmkh')
        ts = [V.tensor(a, [d if isinstance(d, int) else sz[d] for d in SHAPES[a]], grad=bool(grad)) for a in used]
        m = V.define('import torch\n' + fn)
        r = V.ex.force(V.call(m['f'], *ts))
        if grad:
            g = V.ex.force(V.call(V.define('import torch\ndef g(l,t): return torch.autograd.grad(l,t)')['g'], r, tuple(ts)))
            rs = [V.ex.force(x) for x in g]
        else:
            rs = [r]
        for i, ints in enumerate(trials):
            mod = V.model(*[sz[d] == ints[d] for d in 'nmkh'])
            if mod is None:
                continue
            for j, r_ in enumerate(rs):
                env = neval.Env(mod, ints=dict(ints), salt='t')
                try:
                    got[i, j] = neval.tensor_value(r_.term, env) if isinstance(r_, PTensor) else float(env.zreal(r_)) if is_z3(r_) else r_
                except neval.NoValue as e:
                    got[i, j] = ('novalue', str(e))
        V.rec('evaluated', 'proved')
    r = run_one(Ob('d', '', body, {}))
    if r['status'] != 'proved':
        log.append((expr, 'not modelled', r['detail'][:160]))
        return None
    bad = novalue = 0
    for i, ints in enumerate(trials):
        cs = [concrete(a, SHAPES[a], ints, 't') for a in used]
        if grad:
            for c in cs:
                c.requires_grad_(True)
        ns = dict(torch=torch)
        torch.set_default_dtype(torch.float64)
        orig = torch.Tensor.float
        torch.Tensor.float = lambda self: self.to(torch.float64)
        try:
            exec(fn, ns)
            want = ns['f'](*cs)
            wants = torch.autograd.grad(want, cs) if grad else [want]
        except (RuntimeError, IndexError) as e:
            if (i, 0) in got and not isinstance(got[i, 0], tuple):
                log.append((expr, 'torch refuses %s: %s' % (ints, str(e)[:80]), ''))
                bad += 1
            continue
        finally:
            torch.Tensor.float = orig
        for j, w_ in enumerate(wants):
            if (i, j) not in got:
                log.append((expr, 'no symbolic result for %s' % ints, ''))
                bad += 1
                continue
            g_ = got[i, j]
            if isinstance(g_, tuple):
                log.append((expr, 'no value', g_[1][:120]))
                novalue += 1
                continue
            g_ = torch.tensor(g_, dtype=torch.float64)
            if w_.numel() == 0 and g_.numel() == 0:
                continue
            if g_.shape != w_.shape or not torch.allclose(g_, w_.to(torch.float64), atol=1e-9):
                log.append((expr, 'DIFFERS %s: shape %s against %s' % (ints, tuple(g_.shape), tuple(w_.shape)), ''))
                bad += 1
    return bad, novalue


GOODBAD = []


def spec(good):
    def d(f):
        GOODBAD.append((good, f))
        return f
    return d


SRC = '''
import torch
from sortedcontainers import SortedDict
def total(d):
    s = 0
    for k in d: s = s + d[k].numel()
    return s
def last(xs):
    r = None
    for x in xs: r = x
    return r
def find(xs,v):
    i = 0
    while i < len(xs) and xs[i] < v: i += 1
    return i
def scaled(x):
    return x*x.shape[0]
def alias(d):
    return d
def copy_(d):
    r = SortedDict()
    for k in d: r[k] = d[k]
    return r
def inplace(x):
    x += 1
    return x
def mean0(x): return x.sum(dim=0)/x.shape[0]
def clip(a):
    if a < 0: return 0
    return a
def div(a,b): return a//b
'''


def sd(V):
    n = V.int('N', 0)
    from proofs.dod import D2
    return n


@spec(True)
def mean_is_sum_over_n(V):
    n, m = V.dim('n'), V.dim('m')
    x = V.tensor('x', [n, m])
    f = V.define(SRC)
    a, b = V.call(f['mean0'], x), V.call(V.define('def g(x): return x.mean(dim=0)')['g'], x)
    V.tensor_eq(a, (b.term.lead, lambda *i: sigma.elem(b.term, list(i))), 'mean')


@spec(False)
def mean_is_sum(V):
    n, m = V.dim('n'), V.dim('m')
    x = V.tensor('x', [n, m])
    f = V.define(SRC)
    a, b = V.call(f['mean0'], x), V.call(V.define('def g(x): return x.sum(dim=0)')['g'], x)
    V.tensor_eq(a, (b.term.lead, lambda *i: sigma.elem(b.term, list(i))), 'mean')


@spec(False)
def scale_ignored(V):
    n = V.dim('n')
    x = V.tensor('x', [n])
    a = V.call(V.define(SRC)['scaled'], x)
    V.tensor_eq(a, ([n], lambda i: sigma.elem(x.term, [i])), 'scaled')


@spec(True)
def clip_nonneg(V):
    a = V.int('a')
    V.true(V.call(V.define(SRC)['clip'], a) >= 0, 'non-negative')


@spec(False)
def clip_identity(V):
    a = V.int('a')
    V.eqint(V.call(V.define(SRC)['clip'], a), a, 'identity')


@spec(True)
def floor_division(V):
    a, b = V.int('a'), V.int('b', 1)
    r = V.call(V.define(SRC)['div'], a, b)
    V.true(z3.And(r * b <= a, a < r * b + b), 'floor')


@spec(False)
def floor_division_truncates(V):
    a, b = V.int('a'), V.int('b', 1)
    r = V.call(V.define(SRC)['div'], a, b)
    V.true(z3.Implies(a < 0, r * b >= a), 'truncates')


@spec(False)
def vacuous(V):
    a = V.int('a')
    V.assume(a < 0, a > 0)
    V.true(a == 7, 'anything')


@spec(False)
def no_checks(V):
    V.int('a')


@spec(False)
def inplace_leaves_argument(V):
    n = V.dim('n')
    x = V.tensor('x', [n])
    old = x.term
    V.call(V.define(SRC)['inplace'], x)
    V.tensor_eq(x, ([n], lambda i: sigma.elem(old, [i])), 'argument unchanged')


@spec(False)
def alias_is_a_copy(V):
    x = V.tensor('x', [V.dim('n')])
    d = V.sdict([('a', x)])
    r = V.call(V.define(SRC)['alias'], d)
    ext.dict_set(V.ex, r, 'b', x)
    V.eqint(ext.dict_len(V.ex, d), 1, 'argument unchanged')


@spec(True)
def copy_is_a_copy(V):
    x = V.tensor('x', [V.dim('n')])
    d = V.sdict([('a', x)])
    r = V.call(V.define(SRC)['copy_'], d)
    ext.dict_set(V.ex, r, 'b', x)
    V.eqint(ext.dict_len(V.ex, d), 1, 'argument unchanged')


def unbounded(V):
    from proofs.dod import D1
    return D1


@spec(True)
def total_of_any_number(V):
    from proofs.dod import D2
    d = D2(V, 'd')
    b = V.int('b0', 0, d.B)
    inner = V.item(d.obj, d.bk(b))
    r = V.call(V.define(SRC)['total'], inner)
    V.true(r >= 0, 'sum of sizes is not negative')


@spec(False)
def total_zero(V):
    from proofs.dod import D2
    d = D2(V, 'd')
    b = V.int('b0', 0, d.B)
    V.eqint(V.call(V.define(SRC)['total'], V.item(d.obj, d.bk(b))), 0, 'zero')


@spec(False)
def total_first_only(V):
    from proofs.dod import D2
    d = D2(V, 'd')
    b = V.int('b0', 0, d.B)
    inner = V.item(d.obj, d.bk(b))
    V.assume(d.E(b) >= 1)
    r = V.call(V.define(SRC)['total'], inner)
    x = V.item(inner, d.ek(b, z3.IntVal(0)))
    n = V.call(V.define('def g(x): return x.numel()')['g'], x)
    V.eqint(r, n, 'only the first')


def lemma():
    """cuts at prefix sums of sizes >= 0 partition [0, total): P(0)=0, P(i+1)=P(i)+s(i)"""
    P = z3.Function('P', z3.IntSort(), z3.IntSort())
    s = z3.Function('s', z3.IntSort(), z3.IntSort())
    i, j, n, x = z3.Ints('i j n x')
    ax = [P(0) == 0, z3.ForAll(i, z3.Implies(i >= 0, z3.And(s(i) >= 0, P(i + 1) == P(i) + s(i))), patterns=[P(i + 1)])]

    def valid(*f):
        sv = z3.Solver()
        sv.set('timeout', 20000)
        sv.add(*f)
        return sv.check() == z3.unsat
    step = z3.And(s(n) >= 0, P(n + 1) == P(n) + s(n))
    out = {}
    # existence, induction on n: each 0 <= x < P(n) lies in a cut i < n
    H = lambda n_: z3.ForAll(x, z3.Implies(z3.And(0 <= x, x < P(n_)), z3.Exists(i, z3.And(0 <= i, i < n_, P(i) <= x, x < P(i) + s(i)))))   # noqa
    out['cover base'] = valid(P(0) == 0, z3.Not(H(z3.IntVal(0))))
    out['cover step'] = valid(n >= 0, step, H(n), z3.Not(H(n + 1)))
    # monotone, induction on j - i
    Mo = lambda j_: z3.ForAll(i, z3.Implies(z3.And(0 <= i, i <= j_), P(i) <= P(j_)))      # noqa
    out['monotone base'] = valid(z3.Not(Mo(z3.IntVal(0))))
    out['monotone step'] = valid(j >= 0, s(j) >= 0, P(j + 1) == P(j) + s(j), Mo(j), z3.Not(Mo(j + 1)))
    # unique: with monotonicity
    k = z3.Int('k')
    out['disjoint'] = valid(0 <= i, i < k, P(i + 1) == P(i) + s(i), P(i + 1) <= P(k), P(i) <= x, x < P(i) + s(i), P(k) <= x)
    # the lemma must not be provable without the hypotheses
    out['needs sizes >= 0'] = not valid(0 <= i, i < k, P(i) <= x, x < P(i) + s(i), P(k) <= x)
    return out


def main():
    log = []
    res = dict(operations=0, differ=0, not_modelled=0, no_value=0)
    for g, text in ((0, OPS), (1, GRADS)):
        for e in text.strip().split('\n'):
            r = differential(e, g, log)
            if r is None:
                res['not_modelled'] += 1
                continue
            res['operations'] += 1
            res['differ'] += bool(r[0])
            res['no_value'] += bool(r[1])
    wrong = []
    for good, f in GOODBAD:
        r = run_one(Ob(f.__name__, '', f, {}))
        if (r['status'] == 'proved') != good:
            wrong.append((f.__name__, good, r['status'], r['detail'][:200]))
    lem = lemma()
    res.update(contracts=len(GOODBAD), wrong=wrong, lemma=lem, log=log)
    print('operations compared with torch: %d, differing: %d, without value: %d, outside the subset (undecided if met): %d' % (res['operations'], res['differ'], res['no_value'], res['not_modelled']))
    print('specifications: %d, wrongly decided: %s' % (len(GOODBAD), wrong))
    print('partition lemma: %s' % lem)
    if '-v' in sys.argv:
        for l in log:
            print(' ', l)
    o = [a for a in sys.argv[1:] if not a.startswith('-')]
    if o:
        json.dump(res, open(o[0], 'w'), indent=1)
    return 0 if not res['differ'] and not wrong and all(lem.values()) else 1


if __name__ == '__main__':
    sys.exit(main())
