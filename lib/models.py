"""Catalogue of the shooting models and reference formulas shared by several contracts."""
import torch
from lib.rt import *

# name -> (class, kind, state keys, has analytic, takes inflation factor)
CAT = {
    'second': ('AutoShootingIntegrandModelSecondOrder', 'vec', ['q1', 'q2'], False, False),
    'updown': ('AutoShootingIntegrandModelUpDown', 'vec', ['q1', 'q2'], True, True),
    'universal': ('AutoShootingIntegrandModelUpDownUniversal', 'vec', ['q1', 'q2'], True, True),
    'general': ('AutoShootingIntegrandModelGeneralUpDown', 'vec', ['q1', 'q2'], True, True),
    'debug': ('DEBUGAutoShootingIntegrandModelSimple', 'vec', ['q1', 'q2'], True, False),
    'simple': ('AutoShootingIntegrandModelSimple', 'vec', ['q1'], True, False),
    'dampq2': ('AutoShootingIntegrandModelUpdownDampenedQ2', 'vec', ['q1', 'q2'], True, True),
    'symm': ('AutoShootingIntegrandModelUpdownSymmetrized', 'vec', ['q1', 'q2', 'q3'], True, True),
    'periodic': ('AutoShootingIntegrandModelUpdownPeriodic', 'vec', ['q1', 'q2'], True, True),
    'conv': ('AutoShootingIntegrandModelSimpleConv2D', 'conv', ['q1', 'q2'], False, False),
    'convbatch': ('AutoShootingIntegrandModelConv2DBatch', 'conv', ['q1', 'q2'], False, False),
    'updownconv': ('AutoShootingIntegrandModelUpDownConv2D', 'conv', ['q1', 'q2'], False, True),
}
# instantiable, but experimental (one prints that it is not functional): only the state equations are under contract
EXPERIMENTAL = {
    'ot': ('AutoShootingOptimalTransportSimple', 'vec', ['q1', 'q2'], False, False),
    'dampened': ('AutoShootingIntegrandModelDampenedUpDown', 'vec', ['c1', 'c2', 'q1', 'q2'], False, True),
}
VEC = [k for k in CAT if CAT[k][1] == 'vec']
CONV = [k for k in CAT if CAT[k][1] == 'conv']
ANALYTIC = [k for k in CAT if CAT[k][3]]
ALL = dict(CAT, **EXPERIMENTAL)


def make(case, **extra):
    """instantiate the integrand described by a case"""
    name = case['model']
    cls, kind, keys, ana, infl = ALL[name]
    k = dict(nonlinearity=case.get('nl', 'tanh'), nr_of_particles=case.get('N', 3), parameter_weight=case.get('w'))
    if kind == 'vec':
        d = case.get('d', 2)
        k.update(in_features=d, particle_dimension=1, particle_size=d)
    else:
        c = case.get('d', 2)
        k.update(in_features=c, particle_dimension=c, particle_size=[4, 5], filter_size=3)
    if infl:
        k['inflation_factor'] = case.get('infl', 3)
    derived = extra.pop('derived', None)
    k.update(extra)
    return (derived or get('shooting_models', cls))(**k)


def shapes(case, n=None):
    """expected state shapes for n rows (particles or data samples)"""
    cls, kind, keys, ana, infl = ALL[case['model']]
    n = case.get('N', 3) if n is None else n
    d = case.get('d', 2)
    f = case.get('infl', 3) if infl else 1
    if kind == 'vec':
        r = {'q1': (n, 1, d), 'q2': (n, 1, d * f), 'q3': (n, 1, d), 'c1': (n, 1, 1), 'c2': (n, 1, 1)}
    else:
        r = {'q1': (n, d, 4, 5), 'q2': (n, d * f, 4, 5)}
    return {k: r[k] for k in keys}


def state(case, n=None, pre='', scale=1.0, grad=True):
    s = SD()
    for k, sh in shapes(case, n).items():
        s[pre + k] = (torch.randn(*sh) * scale).requires_grad_(grad)
    return s


def potential(dot, co):
    """sum over entries of the particle mean of costate times state derivative"""
    u = 0.
    for (ks, a), (kc, b) in zip(dot.items(), co.items()):
        assert kc == 'p_' + ks[len('dot_'):], (ks, kc)
        u = u + (a * b).sum() / a.shape[0]
    return u


def kinetic(po):
    t = 0.
    for o in po:
        w = po[o].get_parameter_weight_dict()
        for k, v in po[o].get_parameter_dict().items():
            ww = w[k] if (k in w and w[k] is not None) else 1.0
            t = t + 0.5 * ww * (v ** 2).sum()
    return t


def weight_of(o, k):
    w = o.get_parameter_weight_dict()
    return w[k] if (k in w and w[k] is not None) else 1.0


def randomize(po):
    for o in po:
        pd = po[o].get_parameter_dict()
        for k in list(pd):
            pd[k] = torch.randn_like(pd[k]).requires_grad_(True)
    return po


def ref_parameters(m, t, s, c):
    """parameters at which the Lagrangian is stationary: (1/w) d U / d theta, computed here from the model's own state equation"""
    po = randomize(m.create_default_parameter_objects())
    dot = m.rhs_advect_state(t, s, po)
    u = potential(dot, c)
    th = [po[o].get_parameter_dict()[k] for o in po for k in po[o].get_parameter_dict()]
    g = torch.autograd.grad(u, th, create_graph=True, allow_unused=True)
    it = iter(g)
    out = {}
    for o in po:
        for k in po[o].get_parameter_dict():
            x = next(it)
            out[(o, k)] = x / weight_of(po[o], k)
    return po, out


def install(po, vals):
    for (o, k), v in vals.items():
        po[o].get_parameter_dict()[k] = v
    return po


def ref_costate(m, t, s, c):
    """N * d/dq [T - U] with the stationary parameters substituted"""
    po, vals = ref_parameters(m, t, s, c)
    install(po, vals)
    dot = m.rhs_advect_state(t, s, po)
    L = kinetic(po) - potential(dot, c)
    q = [s[k] for k in s]
    g = torch.autograd.grad(L, q, allow_unused=True)
    N = m.nr_of_particles
    return SD({'dot_p_' + k: (N * x if x is not None else torch.zeros_like(s[k])) for k, x in zip(s, g)}), po, dot, L
