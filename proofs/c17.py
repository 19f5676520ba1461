"""C17: initial particles and costates: sizes and values.

A standard normal draw is an arbitrary tensor (torch.randn / randn_like return a fresh unknown of the requested shape); a random
initialisation is the magnitude times one such draw, around the sample batch if there is one."""
from pyvc.prove import *
from proofs.common import *

P = 'parameter_initialization:'
VECTOR = ['VectorEvolutionParameterInitializer', 'VectorEvolutionSampleBatchParameterInitializer']
CONVOL = ['ConvolutionEvolutionParameterInitializer', 'ConvolutionEvolutionSampleBatchParameterInitializer']
CLIENT = '''
import torch
import torch.nn as nn
def isparam(p):
    return isinstance(p, nn.Parameter) and p.requires_grad
'''


class Ini(object):
    def __init__(self, V, cls, sample=None, tag='mag', **kw):
        self.V, self.cls = V, cls
        self.mag = V.real(tag)
        self.o = V.call(P + cls, random_initialization_magnitude=self.mag, sample_batch=sample, **kw)

    def expect(self, call, shape, mode, what, sample=None, const=None):
        """one call: shape and values"""
        V = self.V
        V.ex.draws = []
        r = V.ex.force(call())
        V.true(V.call(V.define(CLIENT)['isparam'], r), what + ': an optimisable parameter')
        if mode == 'zero':
            f = lambda *i: ZERO
        elif mode == 'constant':
            f = lambda *i: num(const)
        else:
            if not drawn(V, r, what):
                return r
            d = V.ex.draws[0].term
            V.shape(V.ex.draws[0], shape, what + ': as many numbers as there are entries')
            s = (lambda i: ZERO) if sample is None else (lambda i: sigma.elem(sample.term, i))
            f = lambda *i: add(s(list(i)), mul(num(self.mag), sigma.elem(d, list(i))))
        V.tensor_eq(r, (shape, f), what)
        return r


def drawn(V, r, what):
    if [d.flags.get('random') for d in V.ex.draws] == ['randn']:
        V.true(True, what + ': one standard normal draw')
        return True
    if V.ex.draws:
        V.rec(what + ': one standard normal draw', 'undecided', 'drawn differently')
    else:
        V.fail(what + ': one standard normal draw', 'nothing is drawn')
    return False


def modes(V):
    c = V.real('c')
    return [('zero', dict(set_to_zero=True)), ('constant', dict(set_to_constant=c)), ('random', {}), ('random', dict(set_to_zero=False, set_to_constant=None))], c


def creation(cls):
    conv = cls in CONVOL

    def body(V):
        n, p = V.dim('n'), V.dim('p')
        size = [V.dim('h'), V.dim('w')] if conv else V.dim('s')
        shape = [n, p] + (size if conv else [size])
        sample = V.tensor('sample', shape) if 'Sample' in cls else None
        k = Ini(V, cls, sample)
        ms, c = modes(V)
        for mode, kw in ms:
            for ps in ([tuple(size), PList(list(size))] if conv else [size]):
                k.expect(lambda: V.m(k.o, 'create_parameters', nr_of_particles=n, particle_size=ps, particle_dimension=p, **kw), shape, mode, 'create_parameters, ' + mode, sample, c)
        sh1 = [n, 1] + (size if conv else [size])
        if sample is None:
            k.expect(lambda: V.m(k.o, 'create_parameters', n, tuple(size) if conv else size), sh1, 'random', 'create_parameters, particle dimension left out')
        like = V.tensor('like', shape, grad=True)
        t0 = like.term
        for mode, kw in ms:
            k.expect(lambda: V.m(k.o, 'create_parameters_like', like, **kw), shape, mode, 'create_parameters_like, ' + mode, None, c)
        V.true(like.term is t0, 'the template is not modified')
        for mode, kw in ms:
            k.expect(lambda: V.m(k.o, 'create_parameters_of_size', n, **kw), [n], mode, 'create_parameters_of_size (a number), ' + mode, None, c)
            k.expect(lambda: V.m(k.o, 'create_parameters_of_size', tuple(shape), **kw), shape, mode, 'create_parameters_of_size, ' + mode, None, c)
    return body


def refusals(cls):
    conv = cls in CONVOL

    def body(V):
        n, p, s = V.dim('n'), V.dim('p'), V.dim('s')
        size = (V.dim('h'), V.dim('w')) if conv else s
        like = V.tensor('like', [n, p])
        c = V.real('c')
        calls = lambda o, **kw: [('create_parameters', lambda: V.m(o, 'create_parameters', nr_of_particles=n, particle_size=size, particle_dimension=p, **kw)),
                                 ('create_parameters_like', lambda: V.m(o, 'create_parameters_like', like, **kw)),
                                 ('create_parameters_of_size', lambda: V.m(o, 'create_parameters_of_size', n, **kw))]
        k = Ini(V, cls)
        for nm, f in calls(k.o, set_to_zero=True, set_to_constant=c):
            V.raises(f, nm + ': zero and constant at once are refused', ['ValueError'])
        k = Ini(V, cls, only_random_initialization=False)
        for nm, f in calls(k.o):
            V.raises(f, nm + ': no custom initialisation here', ['ValueError'])
        k = Ini(V, cls, sample=0.0)
        for kw in (dict(set_to_zero=True), dict(set_to_constant=c), {}) if conv else ():
            V.raises(lambda: V.m(k.o, 'create_parameters', n, s, p, **kw), 'a number is no particle size here', ['ValueError'])
    return body


for cls in VECTOR + CONVOL:
    obligation('%s: sizes and values' % cls, P + cls, grad=False, scope='all sizes, magnitudes, constants')(creation(cls))
    obligation('%s: refusals' % cls, P + cls, scope='all sizes')(refusals(cls))


def dims(V, name):
    kind = ALL[name][1]
    D = Dims(V, kind)
    if kind == 'vec' and name not in EXPERIMENTAL:
        D.pd = V.dim('pd')
    stub_nl(V)
    return D


def states(name, zero):
    def body(V):
        D = dims(V, name)
        conv = ALL[name][1] == 'conv'
        si, ci = Ini(V, (CONVOL if conv else VECTOR)[0]), Ini(V, (CONVOL if conv else VECTOR)[0], tag='comag')
        m = make(V, name, D, state_initializer=si.o, costate_initializer=ci.o)
        V.is_(V.m(m, 'get_state_initializer'), si.o, 'state initializer')
        V.is_(V.m(m, 'get_costate_initializer'), ci.o, 'costate initializer')
        V.ex.draws = []
        s = V.ex.force(V.m(m, 'create_initial_state_parameters_if_needed', set_to_zero=zero))
        es = V.entries(s)
        want = shapes(name, D)
        V.true([k for k, _ in es] == sorted(want), 'names of the states')
        check(V, es, [want[k] for k, _ in es], si, zero, 'state')
        sn = snap([(k, v) for k, v in es])
        V.ex.draws = []
        c = V.ex.force(V.m(m, 'create_initial_costate_parameters', state_dict=s))
        ec = V.entries(c)
        V.true([k for k, _ in ec] == ['p_' + k for k, _ in es], 'one costate per state under its name with a prefix')
        check(V, ec, [want[k] for k, _ in es], ci, False, 'costate')
        untouched(V, sn, 'states')
        V.none(V.m(m, 'create_initial_costate_parameters', state_dict=None), 'no states, no costates')
        shp = [want[k] for k in sorted(want)]
        other = [(k, V.tensor('other' + k, shp[i % len(shp)])) for i, k in enumerate((' y.2', 'Q', 'q', 'xA_1'))]
        V.ex.draws = []
        ec = V.entries(V.ex.force(V.m(m, 'create_initial_costate_parameters', state_dict=V.sdict(other))))
        V.true(sorted(k for k, _ in ec) == sorted('p_' + k for k, _ in other), 'other names: one costate per state under its name with a prefix')
        for k, v in other:
            V.shape(dict(ec)['p_' + k], v.term.lead, 'other names: shape of the costate of ' + k)
    return body


def check(V, es, want, ini, zero, what):
    one = V.define(CLIENT)['isparam']
    used = []
    for (k, v), sh in zip(es, want):
        V.true(V.call(one, v), '%s %s: an optimisable parameter' % (what, k))
        if zero:
            V.tensor_eq(v, (sh, lambda *i: ZERO), '%s %s' % (what, k))
            continue
        names = T.vars_of([sigma.elem(v.term, [z3.Int('i%d' % j) for j in range(len(sh))])])
        mine = [d for d in V.ex.draws if d.term.kw['name'] in names]
        if len(mine) > 1:
            V.rec('%s %s: a draw' % (what, k), 'undecided', 'several draws')
            return
        V.true(len(mine) == 1 and mine[0] not in used, '%s %s: a draw of its own' % (what, k))
        used += mine
        V.tensor_eq(v, (sh, lambda *i: mul(num(ini.mag), sigma.elem(mine[0].term, list(i)))), '%s %s' % (what, k))


def none(name):
    def body(V):
        D = dims(V, name)
        for kw, what in ((dict(is_pass_through=True), 'pass-through'), (dict(nr_of_particles=None), 'no number of particles'), (dict(particle_size=None), 'no particle size'), (dict(particle_dimension=None), 'no particle dimension')):
            if 'particle_size' in kw and ALL[name][1] == 'conv':
                continue
            m = make(V, name, D, **kw)
            for z in (False, True):
                V.none(V.m(m, 'create_initial_state_parameters_if_needed', set_to_zero=z), what + ': no states')
    return body


I = 'shooting_integrands:ShootingIntegrandBase.'
for name in list(CAT) + ['ot']:
    for zero in (False, True):
        obligation('initial states and costates[%s%s]' % (name, ',zero' if zero else ''), 'shooting_models:%s.create_initial_state_parameters' % ALL[name][0], grad=False, scope='all sizes, magnitudes')(states(name, zero))
    obligation('no own particles[%s]' % name, I + 'create_initial_state_parameters_if_needed', scope='all sizes')(none(name))
