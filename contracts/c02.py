"""C02  joining several blocks per entry and splitting them again."""
import torch
from lib.rt import *

U = 'state_costate_and_data_dictionary_utils'


def cases(tier, rng):
    yield dict(kind='refuse', seed=0)
    n = ncases(tier, 80, 800)
    i = 0
    for dim in range(5):
        for nb in (1, 2, 3):
            yield dict(dim=dim, nb=nb, nk=2, sizes=[[2, 3, 1][:nb], [1, 1, 4][:nb]], other=[2, 3, 2, 2, 2], rank=5, prefix='', seed=i); i += 1
            yield dict(dim=dim, nb=nb, nk=2, sizes=[[2, 0, 1][:nb], [1, 2, 4][:nb]], other=[1, 2, 3, 1, 2], rank=max(dim + 1, 3), prefix='dot_', seed=i); i += 1
            yield dict(dim=dim, nb=nb, nk=2, sizes=[[2, 3, 1][:nb], [1, 1, 4][:nb]], other=[2, 1, 3, 1, 2, 5, 1], rank=6 + dim % 2, prefix='p_', seed=i); i += 1
    for j in range(n):
        dim = rng.randint(0, 4)
        nb = rsize(rng, 1, 4)
        nk = rsize(rng, 1, 4, 20)
        yield dict(dim=dim, nb=nb, nk=nk, sizes=[[rsize(rng, 0 if rng.random() < .1 else 1, 4, 20) for _ in range(nb)] for _ in range(nk)],
                   other=[rng.randint(1, 3) if q else rsize(rng, 1, 3) for q in range(7)], rank=rng.randint(dim + 1, 7), prefix=rng.choice(['', 'dot_', 'p_']), seed=100 + j)


def build(case):
    keys = ['q2', 'q1', 'c', 'q10', 'A'][:case['nk']]
    blocks = ['b', 'block_2', 'a', 'block_10'][:case['nb']]
    dd = SD()
    for bi, b in enumerate(blocks):
        d = SD()
        for ki, k in enumerate(keys):
            sh = list(case['other'][:case['rank']])
            sh[case['dim']] = case['sizes'][ki][bi]
            d[k] = torch.randn(*sh, dtype=torch.float64)
        dd[b] = d
    return dd


def check_case(case):
    scd = mod(U)
    cat, split, named = get(scd, '_concatenate_dict_of_dicts'), get(scd, '_deconcatenate_based_on_generic_dict_of_dicts'), get(scd, '_concatenate_named_dict_of_dicts_keeping_structure')
    if case.get('kind') == 'refuse':
        a = SD({'a': SD({'q': torch.ones(2, 3)}), 'b': SD({'q': torch.ones(3, 3)})})
        expect_raises(lambda: cat(a, 1), 'blocks whose shapes do not match must be refused', (ValueError,))
        b = SD({'a': SD({'q': torch.ones(2, 3)}), 'b': SD({'r': torch.ones(2, 3)})})
        expect_raises(lambda: cat(b, 1), 'blocks with different entries must be refused', (ValueError,))
        b = SD({'a': SD({'q': torch.ones(2, 3)}), 'b': SD({'q': torch.ones(2, 3), 'r': torch.ones(2, 3)})})
        expect_raises(lambda: cat(b, 1), 'blocks with different entries must be refused', (ValueError,))
        c = SD({'a': SD({'q': torch.ones(1, 1, 1, 1, 1, 2)})})
        expect_raises(lambda: split(SD({'q': torch.ones(1, 1, 1, 1, 1, 2)}), c, 5), 'splitting along dimension 5 must be refused', (ValueError,))
        expect_raises(lambda: split(SD({'q': torch.ones(1, 1, 1, 1, 1, 2)}), c, -1), 'splitting along a negative dimension must be refused', (ValueError,))
        return
    dd = build(case)
    dim = case['dim']
    sn = snapshot(dd)
    j = cat(dd, dim)
    unchanged(dd, sn)
    keys = list(dd.peekitem(0)[1].keys())
    ensure(list(j.keys()) == keys, 'joined entries %s, expected %s', list(j.keys()), keys)
    for k in keys:
        t_equal(j[k], torch.cat([dd[b][k] for b in dd], dim=dim), 'joined ' + k)
    nd = named(dd, dim, 'new')
    ensure(list(nd.keys()) == ['new'], 'joining under a name must give one block')
    d_equal(nd['new'], j, 'joined under a name')
    # splitting undoes it, also when the joined entries carry another (order preserving) name
    jj = SD({case['prefix'] + k: j[k] for k in j})
    sj = snapshot(jj)
    s = split(jj, dd, dim)
    unchanged(jj, sj); unchanged(dd, sn)
    want = SD({b: SD({case['prefix'] + k: dd[b][k] for k in dd[b]}) for b in dd})
    dd_equal(s, want, 'split(join)')
    # joining the parts of any vector gives the vector back
    f = SD({k: torch.randn_like(j[k]) for k in j})
    d_equal(cat(split(f, dd, dim), dim), f, 'join(split)')
