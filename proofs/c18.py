"""C18: a block transports particles and data together, chains and reports all times.

The integrator is a stand-in that records its arguments and returns an arbitrary trajectory y: what is handed to it (function, start vector,
times) and what is made of its result is under contract; that a solver integrates the given function is the contract of torchdiffeq."""
from pyvc.prove import *
from proofs.common import *
from proofs.blk import *

def mk(name):
    @obligation('%s: forward from an input: particles, costates and data are integrated together' % name, B + '.forward', scope='any sizes, any parameters, repeated passes, end time set before or later')
    def fwd(V):
        tm = V.real('tm')
        k = Blk(V, name, max_integration_time=tm)
        k.tend = ext.num_expr(tm) if hasattr(ext, 'num_expr') else Expr('real', tm)
        s, c = k.own()
        x = k.x()
        k.expect([s, c, data(k, x)], lambda: V.call(k.b, x), 'first pass')
        k.S = V.dim('another batch size')
        x = k.x('another batch')
        k.expect([s, c, data(k, x)], lambda: V.call(k.b, x=x), 'second pass with another batch')
        t2 = V.real('t2')
        k.tend = Expr('real', t2)
        V.m(k.b, 'set_integration_time', t2)
        k.expect([s, c, data(k, x)], lambda: V.call(k.b, x), 'other end time')

    @obligation('%s: all times of a time vector are returned' % name, B + '.forward', scope='any sizes and number of times')
    def times(V):
        k = Blk(V, name, times=True)
        s, c = k.own()
        x = k.x()
        k.expect([s, c, data(k, x)], lambda: V.call(k.b, x), 'pass')
        k.S = V.dim('another batch size')
        x = k.x('another batch')
        k.T = V.dim('another number of times', 2)
        k.tv = V.tensor('other times', [k.T])
        V.m(k.b, 'set_integration_time_vector', k.tv, suppress_warning=True)
        k.expect([s, c, data(k, x)], lambda: V.call(k.b, x), 'second pass with another batch and other times')

    for tv in (False, True):
        @obligation('%s: a block without own particles continues the flow%s' % (name, ' (time vector)' if tv else ''), B + '.forward', scope='any sizes, one handed-over block (bounded)')
        def cont(V, tv=tv):
            k = Blk(V, name, times=tv, model=dict(is_pass_through=True))
            for o in ('', ' (again)'):
                h = k.handed('a', V.dim('dh'), o)
                g = [[('a', n, t) for n, t in V.entries(d)] for d in h]
                dd = [V.sdict([('a', d)]) for d in h]
                k.expect(g, lambda: V.call(k.b, pass_through_state_dict_of_dicts=dd[0], pass_through_costate_dict_of_dicts=dd[1], data_dict_of_dicts=dd[2]), 'pass' + o)
                k.S = V.dim('another batch size')

        for bn in ('Z', 'c'):
            @obligation('%s: a block with own particles joins the blocks in key order (%s)%s' % (name, bn, ' (time vector)' if tv else ''), B + '.forward', scope='any sizes, two handed-over blocks (bounded)')
            def join(V, tv=tv, bn=bn):
                k = Blk(V, name, times=tv, blockname=bn)
                s, c = k.own()
                hs = [('a', k.handed('a', V.dim('da'))), ('b', k.handed('b', V.dim('db')))]
                g = [[(b, n, t) for b, h in hs for n, t in V.entries(h[j])] for j in range(3)]
                g[0] += s
                g[1] += c
                sh = shapes(name, k.D, k.S)
                g[2] += [(bn, n, PTensor(tfull(ZERO, z))) for n, z in sh.items()]
                dd = [V.sdict([(b, h[j]) for b, h in hs]) for j in range(3)]
                f = lambda: V.call(k.b, pass_through_state_dict_of_dicts=dd[0], pass_through_costate_dict_of_dicts=dd[1], data_dict_of_dicts=dd[2])
                k.expect(g, f, 'first pass')
                k.expect(g, f, 'second pass')


def mklead(name, tv, own):
    @obligation('%s: data with any number of leading dimensions, in any order of calls, %s own particles%s' % (name, 'with' if own else 'without', ' (time vector)' if tv else ''), B + '._get_initial_conditions_from_data_dict_of_dicts',
                scope='any sizes, two handed-over blocks, up to two leading dimensions, six calls (bounded)')
    def _(V):
        k = Blk(V, name, times=tv, blockname='m', model={} if own else dict(is_pass_through=True))
        s, c = k.own() if own else ([], [])
        L = [V.dim('L1'), V.dim('L2')]
        for i, n in enumerate((1, 0, 2, None, 1, None)):
            if n is None:
                if not own:
                    continue
                k.lead = ()
                x = k.x('x%d' % i)
                k.expect([s, c, data(k, x)], lambda: V.call(k.b, x), 'call %d: from an input' % i)
                continue
            k.lead = tuple(L[:n])
            hs = [('a', k.handed('a', V.dim('da'), str(i))), ('z', k.handed('z', V.dim('dz'), str(i)))]
            g = [[(b, q, t) for b, h in hs for q, t in V.entries(h[j])] for j in range(3)]
            g[0] += s
            g[1] += c
            if own:
                g[2] += [('m', q, PTensor(tfull(ZERO, list(k.lead) + list(z)))) for q, z in shapes(name, k.D, k.S).items()]
            dd = [V.sdict([(b, h[j]) for b, h in hs]) for j in range(3)]
            k.expect(g, lambda: V.call(k.b, pass_through_state_dict_of_dicts=dd[0], pass_through_costate_dict_of_dicts=dd[1], data_dict_of_dicts=dd[2]), 'call %d: %d leading dimensions' % (i, n))


for _n in CAT:
    mk(_n)
for _n in ('updown', 'simple', 'conv'):
    for _tv in (False, True):
        for _own in (False, True):
            mklead(_n, _tv, _own)


@obligation('incomplete or contradictory inputs are refused', B + '.forward', scope='any sizes')
def refuse(V):
    k = Blk(V, 'updown')
    x = k.x()
    h = k.handed('a', V.dim('dh'))
    s, c, d = [V.sdict([('a', y)]) for y in h]
    V.set(k.it, 'y', V.tensor('y', [2, V.dim('tot')]))
    V.raises(lambda: V.call(k.b), 'no input')
    V.raises(lambda: V.call(k.b, x, pass_through_state_dict_of_dicts=s), 'states without costates')
    V.raises(lambda: V.call(k.b, x, pass_through_costate_dict_of_dicts=c), 'costates without states')
    V.raises(lambda: V.call(k.b, data_dict_of_dicts=d, pass_through_state_dict_of_dicts=s), 'states and data without costates')
    V.raises(lambda: V.call(k.b, x, s, c, d), 'input and data')
    V.raises(lambda: V.call(k.b, x=x, data_dict_of_dicts=d), 'input and data without particles')
    V.raises(lambda: V.call(k.b, pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=c), 'neither input nor data')
    V.eqint(V.attr(k.it, 'calls').length(), 0, 'nothing is integrated')
    V.raises(lambda: V.m(k.b, 'parameters'), 'parameters before the first pass')


@obligation('contradictory or missing settings are refused', B + '.__init__', scope='all')
def settings(V):
    D = Dims(V)
    stub_nl(V)
    m = make(V, 'simple', D)
    it = V.call(V.define(CLIENT)['Integ'])
    V.raises(lambda: V.call(B, 'b', integrator=it), 'no integrand')
    V.raises(lambda: V.call(B, 'b', shooting_integrand=m, shooting_integrand_name='simple', integrator=it), 'integrand and name of one')
    V.raises(lambda: V.call(B, 'b', shooting_integrand=m, integrator=it, use_particle_free_rnn_mode=True, use_particle_free_time_dependent_mode=True), 'both particle-free modes')


for _n in ('updown', 'conv'):
    @obligation('%s: parameters after the first pass: those of the block, each once' % _n, B + '.parameters', scope='any sizes')
    def pars(V, n=_n):
        k = Blk(V, n)
        s, c = k.own()
        x = k.x()
        k.expect([s, c, data(k, x)], lambda: V.call(k.b, x), 'pass')
        ps = V.ex.iterate_concrete(V.m(k.b, 'parameters'))
        V.eqint(len(ps), len(s) + len(c), 'number of parameters')
        for w in s + c:
            V.eqint(len([p for p in ps if V.ex.force(p) is w[-1]]), 1, 'parameter ' + w[1])

    @obligation('%s: without joining, all blocks are returned under their own names' % _n, B + '.forward', scope='any sizes, one handed-over block (bounded)')
    def nocat(V, n=_n):
        k = Blk(V, n, blockname='Z', model=dict(concatenate_parameters=False))
        s, c = k.own()
        h = k.handed('a', k.D.d)
        g = [s + [('a', q, t) for q, t in V.entries(h[0])], c + [('a', q, t) for q, t in V.entries(h[1])],
             [('Z', q, PTensor(tfull(ZERO, z))) for q, z in shapes(n, k.D, k.S).items()] + [('a', q, t) for q, t in V.entries(h[2])]]
        flat = [x[-1] for y in g for x in y]
        tot = V.call(k.c['total'], PList(list(flat)))
        y = V.tensor('y', [2, simp(tot)])
        V.set(k.it, 'y', y)
        dd = [V.sdict([('a', d)]) for d in h]
        r = V.ex.force(V.call(k.b, pass_through_state_dict_of_dicts=dd[0], pass_through_costate_dict_of_dicts=dd[1], data_dict_of_dicts=dd[2]))
        x0 = V.ex.force(V.ex.force(V.item(V.attr(k.it, 'calls'), 0))[1])
        V.tensor_eq(x0, V.ex.force(V.call(k.c['join'], PList(list(flat)))), 'starts at particles, costates and data')
        pc = V.ex.force(V.call(k.c['pieces'], y, PList(list(flat)), False))
        want = [x[:2] + (V.item(pc, i),) for i, x in enumerate(x for z in g for x in z)]
        got = [x for z in r[1:] for x in flatten(V, V.ex.force(z))]
        same_list(V, got, want, 'final states, costates and data')
        same_list(V, flatten(V, V.ex.force(r[0])), [x for x in want[len(g[0]) + len(g[1]):] if x[1] == 'q1'], 'data positions')
