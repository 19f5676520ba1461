"""C04  flattening named tensors into a tuple for differentiation and naming the results again."""
import torch
from lib.rt import *


def cases(tier, rng):
    K = ['q1', 'q2', 'q10', 'a', 'B', '_x']
    for pre in ('', 'dot_p_', 'grad_'):
        for n in (0, 1, 2, 3, 6):
            yield dict(kind='dict', keys=K[:n], pre=pre, seed=n)
        for bl in ([], [['a', 1]], [['b', 2], ['a', 3]], [['z', 1], ['y', 0], ['x', 2]], [['b10', 6], ['b2', 6], ['b1', 6]]):
            yield dict(kind='dd', blocks=bl, pre=pre, seed=3)
        for lay in ([], [['l1', 'lin']], [['l2', 'lin'], ['l1', 'linnb'], ['l10', 'lin']], [['conv2', 'conv'], ['conv1', 'conv'], ['gn', 'gn'], ['d', 'damp']]):
            yield dict(kind='par', layers=lay, pre=pre, seed=4)
    for pre in ('dot_p_', 'q'):
        ks = ['a', pre + 'a', pre, pre + pre + 'b', 'z' + pre, 'b']
        yield dict(kind='dict', keys=ks, pre=pre, seed=5)
        yield dict(kind='dd', blocks=[['b', 6], [pre + 'b', 4], ['a', 1]], keys=ks, pre=pre, seed=6)
        yield dict(kind='par', layers=[['b', 'lin'], [pre + 'b', 'lin'], [pre, 'conv']], pre=pre, seed=7)
    yield dict(kind='par', layers=[['b', 'lin'], ['a', 'empty'], ['c', 'gn']], pre='weig', seed=8)
    yield dict(kind='par', layers=[['a', 'empty'], ['b', 'empty']], pre='', seed=9)
    for j in range(ncases(tier, 30, 300)):
        pre = rng.choice(['', 'dot_', 'p_', rnames(rng, ['grad_'], 1)[0]])
        yield dict(kind='dict', keys=rnames(rng, K, rsize(rng, 0, 8)), pre=pre, seed=100 + j)
        yield dict(kind='dd', blocks=[[b, rsize(rng, 0, 4)] for b in rnames(rng, K, rsize(rng, 0, 5))], keys=rnames(rng, K, 3), pre=pre, seed=100 + j)
        yield dict(kind='par', layers=[[l, rng.choice(['lin', 'linnb', 'conv', 'gn', 'damp', 'gnna'])] for l in rnames(rng, ['l1', 'l2', 'l11', 'l3'], rsize(rng, 0, 6, 20))], pre=pre, seed=100 + j)


def check_case(case):
    scd = mod('state_costate_and_data_dictionary_utils')
    pre = case['pre']
    if case['kind'] == 'dict':
        d = SD({k: torch.randn(i + 1, 2 if i % 3 != 1 else 0) for i, k in enumerate(case['keys'])})
        t = scd.compute_tuple_from_generic_dict(d)
        ensure(isinstance(t, tuple) and len(t) == len(d) and all(a is d[k] for a, k in zip(t, d)), 'tuple does not list the entries in key order, each once')
        v = tuple(object() for _ in d)
        r = scd.extract_dict_from_tuple_based_on_generic_dict(v, d, prefix=pre)
        ensure(dict(r.items()) == {pre + k: x for k, x in zip(d, v)}, 'i-th tuple element is not stored under the i-th key: %s', r)
        r = scd.extract_dict_from_tuple_based_on_generic_dict(v, d)
        ensure(dict(r.items()) == {k: x for k, x in zip(d, v)}, 'default prefix is not empty')
    elif case['kind'] == 'dd':
        dd = SD()
        for b, n in case['blocks']:
            K = case.get('keys', [])
            K = K + ['q%d' % i for i in range(60) if 'q%d' % i not in K]
            dd[b] = SD({K[i]: torch.randn(i % 3, 2) for i in range(n)})
        t = scd.compute_tuple_from_generic_dict_of_dicts(dd)
        flat = [(b, k) for b in dd for k in dd[b]]
        ensure(isinstance(t, tuple) and len(t) == len(flat) and all(x is dd[b][k] for x, (b, k) in zip(t, flat)), 'tuple does not list the entries in block/key order, each once')
        v = tuple(object() for _ in flat)
        r = scd.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(v, dd, prefix=pre)
        ensure(list(r.keys()) == list(dd.keys()), 'blocks differ')
        got = {(b, k): r[b][k] for b in r for k in r[b]}
        ensure(got == {(b, pre + k): x for (b, k), x in zip(flat, v)}, 'tuple elements are paired with the wrong names')
    else:
        oc = mod('overwrite_classes')
        mk = {'empty': lambda: oc.SNN_Linear(2, 0), 'lin': lambda: oc.SNN_Linear(2, 3), 'linnb': lambda: oc.SNN_Linear(2, 3, bias=False), 'conv': lambda: oc.SNN_Conv2d(1, 2, 3),
              'gn': lambda: oc.SNN_GroupNorm(1, 2), 'gnna': lambda: oc.SNN_GroupNorm(1, 2, affine=False), 'damp': lambda: oc.SNN_LinearDampening(2, 2)}
        po = SD({n: mk[k]() for n, k in case['layers']})
        t = scd.compute_tuple_from_parameter_objects(po)
        flat = [(o, k) for o in po for k in po[o].get_parameter_dict()]
        ensure(isinstance(t, tuple) and len(t) == len(flat) and all(x is po[o].get_parameter_dict()[k] for x, (o, k) in zip(t, flat)), 'tuple does not list the parameters in order, each once')
        v = tuple(object() for _ in flat)
        r = scd.extract_dict_from_tuple_based_on_parameter_objects(v, po, prefix=pre)
        ensure(list(r.keys()) == list(po.keys()), 'objects differ')
        got = {(b, k): r[b][k] for b in r for k in r[b]}
        ensure(got == {(o, pre + k): x for (o, k), x in zip(flat, v)}, 'tuple elements are paired with the wrong parameters')
