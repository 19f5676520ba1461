"""C11  striding keeps every stride-th element, consistently for state, costate and data."""
import torch
from lib.rt import *


def cases(tier, rng):
    i = 0
    for st in (1, 2, 3, 5):
        for sz in (1, 2, 3, 4, 5, 7, 8):
            yield dict(stride=st, dims=[2], sh=[2, 3, sz], extra=0, blocks=1, seed=i); i += 1
            yield dict(stride=st, dims=[2, 3], sh=[2, 3, sz, 8 - sz + 1], extra=0, blocks=2, seed=i); i += 1
    for st in (2, 3):
        for sz in (4, 5, 6):
            yield dict(stride=st, dims=2, sh=[2, 1, sz], extra=1, blocks=2, seed=i); i += 1
            yield dict(stride=[st, 2], dims=[2, 3], sh=[2, 1, sz, 5], extra=1, blocks=2, seed=i); i += 1
    yield dict(stride=[2, 3], dims=[3, 2], sh=[2, 1, 7, 8], extra=0, blocks=1, seed=i)
    yield dict(stride=[3, 2, 2], dims=[2, 3, 4], sh=[1, 2, 7, 8, 5], extra=0, blocks=2, seed=i)
    yield dict(stride=[3, 2, 2], dims=[2, 3, 4], sh=[1, 2, 7, 8, 5], extra=1, blocks=2, seed=i)
    yield dict(stride=2, dims=[2, 3, 4, 5], sh=[1, 2, 3, 4, 5, 6], extra=0, blocks=1, seed=i)
    for ex in (2, 3):
        yield dict(stride=2, dims=[2], sh=[2, 3, 5], extra=ex, blocks=2, seed=ex)
        yield dict(stride=[3, 2], dims=[2, 3], sh=[2, 3, 7, 4], extra=2, blocks=1, seed=ex)
    yield dict(kind='refuse', seed=0)
    n = ncases(tier, 40, 500)
    for j in range(n):
        r = rng.randint(3, 5)
        dims = sorted(rng.sample(range(2, r), rng.randint(1, r - 2)))
        yield dict(stride=[rsize(rng, 1, 4, 20) for _ in dims], dims=dims, sh=[rsize(rng, 1, 3, 10), rsize(rng, 1, 3, 10)] + [rsize(rng, 1, 9, 24) for _ in range(r - 2)], extra=rng.randint(0, 5 - max(dims)), blocks=rsize(rng, 1, 3, 12), seed=100 + j)


def ref(x, stride, dims, off):
    for s, d in zip(stride, dims):
        d = d + off
        n = x.shape[d]
        idx = torch.arange(n % s, n, s)
        x = x.index_select(d, idx)
    return x


def check_case(case):
    B = mod('striding_block').ShootingStridingBlock
    if case.get('kind') == 'refuse':
        expect_raises(lambda: B(stride=[2], stride_dims=[2, 3]), 'stride list of wrong length must be refused', (ValueError,))
        expect_raises(lambda: B(stride=(2, 2, 2), stride_dims=(2, 3)), 'stride tuple of wrong length must be refused', (ValueError,))
        expect_raises(lambda: B(stride=2.0, stride_dims=(2, 3)), 'a non-integer stride must be refused', (ValueError,))
        expect_raises(lambda: B(stride=2, stride_dims='2'), 'bad stride dims must be refused', (ValueError,))
        d = lambda: SD({'a': SD({'q': torch.randn(4, 4, 4, 4)})})
        for dim in (0, 1):
            for st in (2, 1, 4, 5):
                expect_raises(lambda: B(stride=st, stride_dims=dim)(d(), d(), d()), 'striding batch or channel dimension must be refused', (ValueError,))
                expect_raises(lambda: B(stride=[2, st], stride_dims=[2, dim])(d(), d(), d()), 'striding batch or channel dimension must be refused', (ValueError,))
        expect_raises(lambda: B(stride=2, stride_dims=4)(d(), d(), d()), 'a stride dimension beyond the tensor must be refused', (ValueError,))
        return
    dims = case['dims']
    ld = [dims] if isinstance(dims, int) else list(dims)
    st = case['stride']
    ls = [st] * len(ld) if isinstance(st, int) else list(st)
    mk = lambda sh, pre: SD({'blk%d' % (9 - b): SD({pre + 'q%d' % k: torch.randn(*[sh[0] + b] + sh[1:]) for k in (1, 2)}) for b in range(case['blocks'])})
    s, c = mk(case['sh'], ''), mk(case['sh'], 'p_')
    x = mk([4, 2, 3][:case['extra']] + [3] + case['sh'][1:], '')
    sn = [snapshot(v) for v in (s, c, x)]
    for conv in (lambda v: v, lambda v: tuple(v) if isinstance(v, list) else v):
        blk = B(stride=conv(st), stride_dims=conv(dims))
        r = blk(state_dict_of_dicts=s, costate_dict_of_dicts=c, data_dict_of_dicts=x)
        for got, src, off, nm in zip(r, (s, c, x), (0, 0, case['extra']), ('state', 'costate', 'data')):
            want = SD({b: SD({k: ref(src[b][k], ls, ld, off) for k in src[b]}) for b in src})
            dd_equal(got, want, 'strided ' + nm)
    for v, w in zip((s, c, x), sn):
        unchanged(v, w)
