"""C12  enlarging handed-over states so that they fit the states of the block."""
import torch
from lib.rt import *
from lib.models import make


def cases(tier, rng):
    i = 0
    L = [([3, 2, 4, 4], [3, 2, 4, 5]), ([3, 2, 4, 4], [3, 2, 7, 5]), ([2, 1, 4, 4], [5, 3, 4, 4]), ([3, 2, 3, 4], [3, 2, 6, 9]), ([3, 2, 4, 4], [3, 2, 4, 4]), ([1, 1, 1, 1], [2, 1, 2, 2]),
         ([2, 3, 5, 3], [4, 3, 6, 8])]
    for a, b in L:
        for nb in (1, 2, 3):
            for zero in (False, True):
                yield dict(frm=a, to=b, nb=nb, zero=zero, seed=i); i += 1
    for k, sz in enumerate(([3, 2, 5, 4], [4, 2, 4, 4], [3, 2, 4, 5], [4, 2, 3, 3], [3, 2, 5, 2], [2, 2, 2, 5], [4, 2, 2, 4])):
        for who in ('all', 'state', 'second'):
            yield dict(kind='refuse', size=sz, who=who, seed=k)
    yield dict(kind='chain', seed=0)
    n = ncases(tier, 30, 300)
    for j in range(n):
        a = [rsize(rng, 1, 4, 12) for _ in range(4)]
        yield dict(frm=a, to=[a[0] + rng.choice([0, 0, 1, 3]), rng.randint(1, 3), a[2] + rsize(rng, 0, 4, 12), a[3] + rsize(rng, 0, 4, 12)], nb=rsize(rng, 1, 3, 12), zero=rng.random() < .3, seed=100 + j)


def blk(case, to, zero, name='new', feats=None):
    sb = mod('shooting_blocks')
    m = make(dict(model='conv', nl='tanh', N=to[0], d=to[1]), particle_size=[to[2], to[3]], **(dict(in_features=feats) if feats else {}))
    return sb.ShootingBlockBase(name=name, shooting_integrand=m, integrator_name='rk4', integrator_options={'step_size': 1.0}, keep_initial_state_parameters_at_zero=zero)


def check_case(case):
    if case.get('kind') == 'refuse':
        b = blk(case, [3, 2, 4, 4], False)
        f = get(b, '_get_or_create_and_register_pass_through_enlargement_parameters')
        sm = [min(u, v) for u, v in zip(case['size'], [3, 2, 4, 4])]
        size = lambda p, blk, q: case['size'] if case['who'] == 'all' or (case['who'] == 'state' and p == '') or (case['who'] == 'second' and blk == 'p') else sm
        d = lambda p: SD({blk: SD({p + q: torch.randn(*size(p, blk, q)) for q in ('q1', 'q2')}) for blk in ('o', 'p')})
        expect_raises(lambda: f(d(''), d('p_')), 'handed-over states (%s: %s) larger than the block states must be refused' % (case['who'], case['size']), (ValueError,))
        return
    if case.get('kind') == 'chain':
        return chain()
    frm, to = case['frm'], case['to']
    b = blk(case, to, case['zero'])
    create = get(b, '_get_or_create_and_register_pass_through_enlargement_parameters')
    enl = get(b, '_enlarge_pass_through_state_and_costate_dict_of_dicts')
    before = set(n for n, _ in b.named_parameters())
    # the blocks may differ in their channel count
    s = SD({'o%d' % k: SD({'q1': torch.randn(frm[0], frm[1] + k, *frm[2:]), 'q2': torch.randn(frm[0], frm[1] + k, *frm[2:])}) for k in range(case['nb'])})
    c = SD({k: SD({'p_' + q: torch.randn_like(v) for q, v in d.items()}) for k, d in s.items()})
    sn, cn = snapshot(s), snapshot(c)
    for d in list(s.values()) + list(c.values()):
        for q in d:
            d[q].requires_grad_(True)
    sp, cp = create(s, c)
    b._pass_through_state_dict_of_dicts_enlargement_parameters, b._pass_through_costate_dict_of_dicts_enlargement_parameters = sp, cp
    es, ec = enl(s, c)
    unchanged(s, sn); unchanged(c, cn)
    need = [to[0] - frm[0], 0, to[2] - frm[2], to[3] - frm[3]]
    grow = any(need)
    regs = {n: p for n, p in b.named_parameters() if n not in before}
    tot = 0
    for src, out, nm in ((s, es, 'state'), (c, ec, 'costate')):
        ensure(list(out.keys()) == list(src.keys()), 'enlarged %s blocks %s', nm, list(out.keys()))
        for k in src:
            ensure(list(out[k].keys()) == list(src[k].keys()), 'enlarged %s entries', nm)
            for q in src[k]:
                t, o = src[k][q], out[k][q]
                want = (to[0], t.shape[1], to[2], to[3])
                ensure(tuple(o.shape) == want, 'enlarged %s %s/%s has shape %s, expected %s', nm, k, q, tuple(o.shape), want)
                sl = tuple(slice(n // 2, n // 2 + t.shape[i]) for i, n in enumerate(need))
                ensure(same(o[sl], t), 'original values of %s %s/%s are not kept in the centre', nm, k, q)
                g, = torch.autograd.grad(o.sum(), t, retain_graph=True, allow_unused=True)
                ensure(g is not None and same(g, torch.ones_like(t)), 'no gradient reaches the handed-over %s %s/%s', nm, k, q)
                mask = torch.ones(want, dtype=torch.bool); mask[sl] = False
                border = o[mask]
                tot += border.numel()
                if grow:
                    p = (sp if nm == 'state' else cp)[k][q][0]
                    ensure(p.numel() == border.numel(), '%d enlargement parameters for %d new values', p.numel(), border.numel())
                    ensure(torch.equal(torch.sort(border.detach().flatten())[0], torch.sort(p.detach().flatten())[0]), 'the new border values of %s are not the enlargement parameters, each used once', nm)
                    g, = torch.autograd.grad(o.sum(), p)
                    ensure(same(g.flatten(), torch.ones(p.numel())), 'enlargement parameters are not used exactly once each')
                    if nm == 'state' and case['zero']:
                        ensure((border == 0).all(), 'state enlargement must stay zero')
                else:
                    ensure(same(o, t), 'no enlargement needed but %s changed', nm)
    # states that are kept at zero are not optimized over
    wantreg = tot // 2 if case['zero'] else tot
    ensure(sum(p.numel() for p in regs.values()) == wantreg, '%d enlargement values but %d registered parameters', wantreg, sum(p.numel() for p in regs.values()))


def chain():
    sb = mod('shooting_blocks')
    b1 = blk({}, [3, 2, 4, 4], False, 'b1')
    b2 = blk({}, [3, 2, 5, 7], False, 'b2', feats=4)
    # data of the size of the second block
    x = torch.randn(2, 2, 4, 4)
    _, s, c, d = b1(x=x)
    xd = SD({'b1': SD({k: torch.nn.functional.pad(v, (1, 2, 0, 1)) for k, v in d['b1'].items()})})
    y, s2, c2, d2 = b2(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=xd)
    n1 = sum(p.numel() for n, p in b2.named_parameters() if n.startswith('pt_enlarge'))
    ensure(n1 == 4 * 3 * 2 * (35 - 16), 'registered enlargement values %d', n1)
    # second call reuses the same parameters
    ids = {n: id(p) for n, p in b2.named_parameters()}
    y2, _, _, _ = b2(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c, data_dict_of_dicts=xd)
    ensure({n: id(p) for n, p in b2.named_parameters()} == ids, 'second forward pass changed the registered parameters')
    t_equal(y2, y, 'second forward pass', 1e-5)
    for k in ('q1', 'q2'):
        ensure(tuple(s2['b2'][k].shape) == (3, 4, 5, 7), 'state %s leaves with shape %s', k, tuple(s2['b2'][k].shape))
