"""C03  adding a block's own dictionary to the dictionaries handed over by earlier blocks."""
import torch
from lib.rt import *


def cases(tier, rng):
    for own in (0, 1, 2):
        for others in (None, [], ['a'], ['b', 'zz'], ['a', 'b', 'c', 'new_']):
            for name in ('new', 'a0', 'A', 'zzz', ''):
                yield dict(own=own, others=others, name=name, seed=1)
    for others, name in ((['a'], 'a'), (['b', 'a'], 'a'), (['new', 'b'], 'new')):
        for own in (0, 1):
            yield dict(own=own, others=others, name=name, seed=2, clash=1)
    P = ['a', 'b', 'c', 'block', 'block_2', '10', '2', 'Z']
    for j in range(ncases(tier, 30, 300)):
        nb = rsize(rng, 0, 5)
        ns = rnames(rng, P, nb + 1)
        yield dict(own=rsize(rng, 0, 4), others=ns[1:] if rng.random() < .9 else None, name=ns[0], ne=rsize(rng, 0, 4), keys=rnames(rng, ['q1', 'q2', 'q10'], 3), seed=100 + j)
        if nb:
            yield dict(own=rsize(rng, 0, 4), others=ns[1:], name=rng.choice(ns[1:]), ne=rsize(rng, 0, 4), seed=100 + j, clash=1)


def check_case(case):
    f = get('state_costate_and_data_dictionary_utils', '_merge_state_costate_or_data_dict_with_generic_dict_of_dicts')
    K = case.get('keys', [])
    K = K + ['q%d' % i for i in range(60) if 'q%d' % i not in K]
    own = SD({K[i]: torch.randn(2, 1) for i in range(case['own'])}) if case['own'] else None
    od = None
    if case['others'] is not None:
        od = SD()
        for n, b in enumerate(case['others']):
            od[b] = SD({K[i]: torch.randn(n + 1, 1) for i in range(case.get('ne', 3))})
    sn = snapshot(od) if od is not None else None
    so = snapshot(own) if own is not None else None
    if case.get('clash'):
        expect_raises(lambda: f(own, od, case['name']), 'a block name that is already taken must be refused', (ValueError,))
        unchanged(od, sn)
        return
    r = f(own, od, case['name'])
    want = SD()
    if own is not None:
        want[case['name']] = own
    for b in (od or {}):
        want[b] = od[b]
    dd_equal(r, want, 'merged')
    if od is not None:
        unchanged(od, sn)
        # the result does not share its containers with the inputs
        r['__extra'] = SD()
        for b in od:
            r[b]['__extra'] = 1
        unchanged(od, sn, 'handed-over dictionary shares containers with the result: ')
    if own is not None:
        unchanged(own, so)
