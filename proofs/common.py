"""Shared specification vocabulary: the catalogue of models and symbolic states."""
from pyvc.prove import *

NS = 'neuro_shooting.'
# name -> (class, kind, state keys, has analytic, takes inflation factor)
CAT = {
    'second': ('AutoShootingIntegrandModelSecondOrder', 'vec', ['q1', 'q2'], False, False),
    'updown': ('AutoShootingIntegrandModelUpDown', 'vec', ['q1', 'q2'], True, True),
    'universal': ('AutoShootingIntegrandModelUpDownUniversal', 'vec', ['q1', 'q2'], True, True),
    'general': ('AutoShootingIntegrandModelGeneralUpDown', 'vec', ['q1', 'q2'], True, True),
    'debug': ('DEBUGAutoShootingIntegrandModelSimple', 'vec', ['q1', 'q2'], True, False),
    'simple': ('AutoShootingIntegrandModelSimple', 'vec', ['q1'], True, False),
    'dampq2': ('AutoShootingIntegrandModelUpdownDampenedQ2', 'vec', ['q1', 'q2'], True, True),
    'symm': ('AutoShootingIntegrandModelUpdownSymmetrized', 'vec', ['q1', 'q2', 'q3'], True, True),
    'periodic': ('AutoShootingIntegrandModelUpdownPeriodic', 'vec', ['q1', 'q2'], True, True),
    'conv': ('AutoShootingIntegrandModelSimpleConv2D', 'conv', ['q1', 'q2'], False, False),
    'convbatch': ('AutoShootingIntegrandModelConv2DBatch', 'conv', ['q1', 'q2'], False, False),
    'updownconv': ('AutoShootingIntegrandModelUpDownConv2D', 'conv', ['q1', 'q2'], False, True),
}
# instantiable, but experimental (one prints that it is not functional): only the state equations are under contract
EXPERIMENTAL = {
    'ot': ('AutoShootingOptimalTransportSimple', 'vec', ['q1', 'q2'], False, False),
    'dampened': ('AutoShootingIntegrandModelDampenedUpDown', 'vec', ['c1', 'c2', 'q1', 'q2'], False, True),
}
VEC = [k for k in CAT if CAT[k][1] == 'vec']
CONV = [k for k in CAT if CAT[k][1] == 'conv']
ANALYTIC = [k for k in CAT if CAT[k][3]]
ALL = dict(CAT, **EXPERIMENTAL)


def stub_nl(V):
    """contract of get_nonlinearity (proved under C05): a pair (nl, dnl) of elementwise functions, dnl the derivative of nl"""
    V.ex.assumptions.add('callee contract: get_nonlinearity returns an elementwise function and its derivative (discharged as C05)')

    def f(ex, a, k):
        one = lambda nm: interp.Bi(nm, lambda ex, a, k: T.unary(ex, nm, ex.force(a[0])))
        return (one('nl'), one('dnl'))
    V.ex.stubs[NS + 'activation_functions_and_derivatives.get_nonlinearity'] = f


class Dims(object):
    def __init__(self, V, kind='vec', pre=''):
        self.N = V.dim('N')
        self.d = V.dim('d')
        self.f = V.dim('f')
        self.pd = 1
        self.hw = (V.dim('h'), V.dim('w_')) if kind == 'conv' else None


def make(V, name, D, w=None, **extra):
    cls, kind, keys, ana, infl = ALL[name]
    k = dict(nonlinearity=extra.pop('nonlinearity', 'tanh'), nr_of_particles=D.N, parameter_weight=w)
    if kind == 'vec':
        k.update(in_features=D.d, particle_dimension=D.pd, particle_size=D.d)
    else:
        k.update(in_features=D.d, particle_dimension=D.d, particle_size=PList(list(D.hw)), filter_size=3)
    if infl:
        k['inflation_factor'] = D.f
    derived = extra.pop('derived', None)
    k.update(extra)
    return V.call(derived or 'shooting_models:' + cls, **k)


def shapes(name, D, n=None):
    cls, kind, keys, ana, infl = ALL[name]
    n = D.N if n is None else n
    f = D.f if infl else 1
    if kind == 'vec':
        r = {'q1': [n, D.pd, D.d], 'q2': [n, D.pd, zi(D.d) * zi(f)], 'q3': [n, D.pd, D.d], 'c1': [n, 1, 1], 'c2': [n, 1, 1]}
    else:
        r = {'q1': [n, D.d] + list(D.hw), 'q2': [n, zi(D.d) * zi(f)] + list(D.hw)}
    return dict((k, r[k]) for k in keys)


def state(V, name, D, n=None, pre='', tag='', grad=True):
    return V.sdict([(pre + k, V.tensor(tag + pre + k, sh, grad=grad)) for k, sh in shapes(name, D, n).items()])


def tval(V, e):
    """0-dim tensor with the given value"""
    return PTensor(tfull(e, []))


def params(V, m, tag, grad=False):
    """parameter objects with arbitrary parameters"""
    po = V.m(m, 'create_default_parameter_objects')
    for o, l in V.entries(po):
        d = V.ex.force(V.m(l, 'get_parameter_dict'))
        for k, v in V.entries(d):
            ext.dict_set(V.ex, d, k, V.tensor('%s_%s_%s' % (tag, o, k), v.term.lead, grad=grad))
    return po


def cat(V, ts, dim):
    return T.h_cat(V.ex, [PList(list(ts)), dim], {})


def flatten(V, dd):
    return [(b, k, v) for b, d in V.entries(dd) for k, v in V.entries(d)]


def flatpars(V, po):
    return [(o, k, p) for o, l in V.entries(po) for k, p in V.entries(V.m(l, 'get_parameter_dict'))]


def same_list(V, u, v, what):
    """same names, same values"""
    V.true([x[:-1] for x in u] == [x[:-1] for x in v], what + ': names')
    for x, y in zip(u, v):
        V.tensor_eq(x[-1], y[-1], '%s: %s' % (what, '.'.join(x[:-1])))


def snap(l):
    """(names, terms) of a list of tensors, to see later whether they were modified"""
    return [x[:-1] + (x[-1], x[-1].term) for x in l]


def untouched(V, s, what):
    for x in s:
        V.true(x[-2].term is x[-1] or x[-2].term.key() == x[-1].key(), '%s: %s untouched' % (what, '.'.join(x[:-2])))
