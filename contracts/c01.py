"""C01  packing / unpacking of state, costate and data dictionaries."""
import itertools, torch
from lib.rt import *

NAMES = ['a', 'b', 'block_10', 'block_2', 'z', 'Q', 'zz']
KEYS = ['q1', 'q2', 'q10', 'p_q1', 'x', 'A', '_', 'dot_q1']
SHAPES = [(1,), (3,), (2, 1), (3, 1, 2), (2, 2, 3), (1, 1, 1), (0, 2), (2, 3, 2, 2), (1, 4, 1, 2, 1), (5, 1, 4)]


def cases(tier, rng):
    base = [
        dict(spec=[[['a', [['q1', [3, 1, 2]]]]], [['a', [['p_q1', [3, 1, 2]]]]], [['a', [['q1', [4, 1, 2]]]]]], T=1, noncontig=0),
        dict(spec=[[['b', [['q1', [3, 1, 2]], ['q2', [3, 1, 6]]]], ['a', [['q1', [2, 1, 2]], ['q2', [2, 1, 6]]]]],
                   [['b', [['p_q1', [3, 1, 2]], ['p_q2', [3, 1, 6]]]], ['a', [['p_q1', [2, 1, 2]], ['p_q2', [2, 1, 6]]]]],
                   [['b', [['q1', [5, 1, 2]], ['q2', [5, 1, 6]]]], ['a', [['q1', [5, 1, 1]], ['q2', [5, 1, 1]]]]]], T=3, noncontig=1),
        dict(spec=[[['b', []], ['a', [['q1', [2, 2]]]]], [['a', [['p', [2, 2]]]]], [['x', [['q', [0, 2]], ['r', [1]]]], ['y', []]]], T=2, noncontig=0),
        dict(spec=[[['1', [['q', [1]]]]], [['1', [['q', [1]]]]], [['1', [['q', [1]]]]]], T=1, noncontig=0),
    ]
    for i, b in enumerate(base):
        b['seed'] = i
        yield b
    yield dict(kind='refuse', seed=0)
    yield dict(kind='large', seed=0)
    yield dict(kind='module', seed=0)
    n = ncases(tier, 60, 600)
    for i in range(n):
        spec = []
        for g in range(3):
            nb = rsize(rng, 1, 4)
            blocks = rnames(rng, NAMES, nb)
            spec.append([[b, [[k, list(rng.choice(SHAPES)) if rng.random() < .7 else [rsize(rng, 1, 4, 20) for _ in range(rng.randint(1, 4))]] for k in rnames(rng, KEYS, rsize(rng, 1, 5, 20) if nb < 10 else rsize(rng, 1, 3, 3))]] for b in blocks])
        yield dict(spec=spec, T=rsize(rng, 1, 4), noncontig=rng.randint(0, 1), seed=1000 + i)


def build(spec, noncontig, dtype):
    out = []
    for g in spec:
        dd = SD()
        for b, ents in g:
            d = SD()
            for k, sh in ents:
                if noncontig and len(sh) >= 2:
                    t = torch.randn(*sh[::-1], dtype=dtype).permute(*range(len(sh) - 1, -1, -1))
                else:
                    t = torch.randn(*sh, dtype=dtype)
                d[k] = t.requires_grad_(True)
            dd[b] = d
        out.append(dd)
    return out


def nonempty(dd):
    r = SD()
    for b in dd:
        if len(dd[b]):
            r[b] = dd[b]
    return r


def check_case(case):
    scd = mod('state_costate_and_data_dictionary_utils')
    if case.get('kind') == 'refuse':
        g = build([[['a', [['q', [2]]]]]] * 3, 0, torch.float32)
        v, p = scd.assemble_tensor(*g)
        for d in (2, -1, 3):
            expect_raises(lambda: scd.disassemble_tensor(v, p, dim=d), 'an unsupported stacking dimension %d must be refused' % d)
        expect_raises(lambda: scd.disassemble_tensor(v, None), 'unpacking without a plan must be refused')
        bad = SD(); bad['a'] = {'q': torch.ones(2)}
        for i in range(3):
            gg = list(g); gg[i] = bad
            expect_raises(lambda: scd.assemble_tensor(*gg), 'a block that is not a sorted dictionary must be refused')
        return
    if case.get('kind') == 'large':
        # entries with more than 2^15 and 2^24 elements: sizes are exact integers
        for sh in ((33000, 2), (97, 172961)):
            e = torch.arange(sh[0] * sh[1], dtype=torch.int32).to(torch.float32).reshape(sh)
            g = [SD({'a': SD({'q1': x, 'q2': torch.tensor([[7., 8.]])})}) for x in (torch.ones(2, 1), e, torch.ones(1, 2))]
            v, p = scd.assemble_tensor(*g)
            ensure(v.numel() == sum(x.numel() for d in g for x in d['a'].values()), 'packed vector has %d elements', v.numel())
            for got, want, nm in zip(scd.disassemble_tensor(v, p), g, ('state', 'costate', 'data')):
                for k in want['a']:
                    ensure(torch.equal(got['a'][k], want['a'][k]), 'unpack(pack) %s %s of shape %s: got %s', nm, k, tuple(want['a'][k].shape), tuple(got['a'][k].shape))
        return
    if case.get('kind') == 'module':
        # the same guarantee through an integrand object: remembered plan and explicit plan agree
        m = mod('shooting_models').AutoShootingIntegrandModelSimple(in_features=2, nonlinearity='tanh', nr_of_particles=3, particle_size=2)
        g = build([[['a', [['q1', [3, 1, 2]]]]], [['a', [['p_q1', [3, 1, 2]]]]], [['a', [['q1', [4, 1, 2]]]]]], 0, torch.float32)
        v, p = m.assemble_tensor(*g)
        r2 = m.disassemble_tensor(v, p)
        m.set_auto_assembly_plans(p)
        r1 = m.disassemble_tensor(v)
        for r in (r1, r2):
            for got, want, nm in zip(r, g, ('state', 'costate', 'data')):
                dd_equal(got, want, nm)
        # an explicitly passed plan takes precedence over the remembered one
        h = build([[['a', [['q1', [2, 1, 2]], ['q2', [1, 1, 2]]]]], [['a', [['p_q1', [3, 1, 2]]]]], [['b', [['q1', [4, 2, 1]]]]]], 0, torch.float32)
        w, q = m.assemble_tensor(*h)
        for got, want, nm in zip(m.disassemble_tensor(w, assembly_plans=q), h, ('state', 'costate', 'data')):
            dd_equal(got, want, nm)
        return
    dt = torch.float64 if case['seed'] % 2 else torch.float32
    g = build(case['spec'], case['noncontig'], dt)
    if any(len(nonempty(x)) == 0 for x in g):
        raise Skip('empty group')
    sn = [snapshot(x) for x in g]
    vec, plan = scd.assemble_tensor(*g)
    for x, s in zip(g, sn):
        unchanged(x, s)
    total = sum(t.numel() for x in g for b in x for t in x[b].values())
    ensure(vec.dim() == 1 and vec.numel() == total, 'packed vector has shape %s, expected (%d,)', tuple(vec.shape), total)
    # layout: state, costate, data; block name order; entry name order; row major
    want = torch.cat([t.reshape(-1) for x in g for b in x for t in x[b].values()])
    ensure(torch.equal(vec, want), 'packed vector is not the row-major concatenation in group / block / entry order')
    keep = vec.detach().clone()
    for got, x, nm in zip(scd.disassemble_tensor(vec, plan, dim=0), g, ('state', 'costate', 'data')):
        dd_equal(got, nonempty(x), 'unpack(pack) ' + nm)
    ensure(torch.equal(vec, keep), 'unpacking modified the vector')
    for got, x, nm in zip(scd.disassemble_tensor(vec, plan), g, ('state', 'costate', 'data')):
        dd_equal(got, nonempty(x), 'unpack(pack) default dim ' + nm)
    # gradient passes through unchanged
    out = scd.disassemble_tensor(vec, plan)
    w = [[torch.randn_like(t) for b in nonempty(x) for t in nonempty(x)[b].values()] for x in g]
    tot = sum((a * t).sum() for ws, x in zip(w, out) for a, t in zip(ws, [t for b in x for t in x[b].values()]))
    leaves = [t for x in g for b in x for t in x[b].values()]
    grads = torch.autograd.grad(tot, leaves)
    for a, gr in zip([a for ws in w for a in ws], grads):
        ensure(same(a, gr), 'gradient through pack/unpack is not the identity')
    # stacked time points
    T = case['T']
    vs = [torch.randn(total, dtype=dt) for _ in range(T)]
    st = torch.stack(vs)
    got = scd.disassemble_tensor(st, plan, dim=1)
    per = [scd.disassemble_tensor(v, plan, dim=0) for v in vs]
    for gi, nm in enumerate(('state', 'costate', 'data')):
        ensure(list(got[gi].keys()) == list(nonempty(g[gi]).keys()), 'stacked unpack: blocks differ')
        for b in got[gi]:
            ensure(list(got[gi][b].keys()) == list(nonempty(g[gi])[b].keys()), 'stacked unpack: entries differ')
            for k in got[gi][b]:
                t_equal(got[gi][b][k], torch.stack([p[gi][b][k] for p in per]), 'stacked unpack %s/%s/%s' % (nm, b, k))
                off = None
    # unpack . pack on a plain vector: positions preserved
    v2, plan2 = scd.assemble_tensor(*per[0]) if all(len(nonempty(x)) for x in per[0]) else (vs[0], plan)
    ensure(torch.equal(v2, vs[0]), 'pack(unpack(v)) differs from v')
