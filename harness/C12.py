"""rfCircuit: voltages and currents at the nodes solve the network"""
import numpy as np
from pyRFtk import rfCircuit, rfBase
from hxutil import *
from hxcirc import *

META = dict(
    bounds='the structures of C09 (up to 4 blocks, junctions of up to 5 ports, up to 3 '
           'terminations), up to 3 levels of nesting with renamed ports; all excitations; '
           'reference impedances symbolic',
    assumptions=['the circuit equations are non singular'])


def excite(ctx, ports):
    return {p: ctx.cplx('a_%d' % i) for i, p in enumerate(sorted(ports))}


def quad(V, I, Z):
    return V, I, (V + Z * I) / 2, (V - Z * I) / 2


def compare(ctx, label, sol, want, Z, names=None, only=None):
    """sol: result of Solution; want: node -> (V, I); names: circuit node -> flat node"""
    if names is None:
        names = {p: p for p in want}
    if only is None:
        ctx.true(label + ': nodes', set(names) <= set(sol))
    for p in (only or names):
        ctx.true(label + ': has ' + p, p in sol)
        q = quad(want[names[p]][0], want[names[p]][1], Z)
        ctx.true(label + ': four quantities', len(sol[p]) == 4)
        for k, what in enumerate(('voltage', 'current', 'forward wave', 'reflected wave')):
            ctx.eq('%s: %s' % (label, what), sol[p][k], q[k],
                   scale=None)


def flat(ctx, name, ref):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    ext = STRUCT(name, N, lambda n: ctx.real(n, 0, s=(1., 90.)))
    C = N.build()
    if ref == 'solved':
        C.getS(f)
    E = excite(ctx, ext)
    given = dict(E)
    Zr = None if ref in ('own', 'solved') else ctx.real('Zr', 0, s=(10., 90.))
    sol = C.Solution(f, E) if Zr is None else C.Solution(f, E, Zr)
    ctx.true('excitation not modified', list(E) == list(given))
    compare(ctx, 'Solution', sol, N.solution(ext, given, Zr), Z if Zr is None else Zr)
    if ref == 'own':
        E2 = {p: E[p] * (1j + i) for i, p in enumerate(ext)}
        sol = C.Solution(f, E2, nodes=[])
        compare(ctx, 'second excitation', sol, N.solution(ext, E2), Z)


def solve(ctx, name, ref):
    """solve leaves the waves of all nodes, on the circuit's reference"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    ext = STRUCT(name, N, lambda n: ctx.real(n, 0, s=(1., 90.)))
    C = N.build()
    C.getS(f)
    E = excite(ctx, ext)
    Zr = None if ref == 'own' else ctx.real('Zr', 0, s=(10., 90.))
    C.solve(f, E) if Zr is None else C.solve(f, E, Zr)
    want = N.solution(ext, E, Zr)
    ctx.true('all waves', len(C.sol) == len(C.waves))
    w = dict(zip(C.waves, C.sol))
    for p, (V, I) in want.items():
        ctx.eq('forward wave', w['->' + p], (V + Z * I) / 2)
        ctx.eq('reflected wave', w['<-' + p], (V - Z * I) / 2)


def nested(ctx, how, nodes='all'):
    """the nodes of inner circuits"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2).block('b', 2, 'num').block('c', 2, 'num')
    Zs = Z if how != 'other' else ctx.real('Zs', 0, s=(10., 90.))
    S = rfCircuit(Zbase=Zs, **({'Portnames': ['b.2', 'a.1']} if how == 'order' else {}))
    S.addblock('a', N.blocks['a'][3])
    S.addblock('b', N.blocks['b'][3])
    S.connect('a.2', 'b.1')
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    C = rfCircuit(Zbase=Z)
    pn = {'renamed': {'a.1': 'x', 'b.2': 'y'}, 'partial': {'b.2': 'y'},
          'swapped': {'a.1': 'b.2', 'b.2': 'a.1'}}.get(how)
    p, q = {'renamed': ('x', 'y'), 'partial': ('a.1', 'y'),
            'swapped': ('b.2', 'a.1')}.get(how, ('a.1', 'b.2'))
    C.addblock('c', N.blocks['c'][3])
    C.addblock('s', S, ports=pn)
    C.connect('s.' + q, 'c.1')
    ext = ['s.' + p, 'c.2']
    names = {'s.' + p: 'a.1', 's.' + q: 'b.2', 'c.1': 'c.1', 'c.2': 'c.2'}
    inner = {'s.a.2': 'a.2', 's.b.1': 'b.1'}
    E = excite(ctx, ext)
    want = N.solution(['a.1', 'c.2'], {'a.1': E[ext[0]], 'c.2': E['c.2']})
    if nodes == 'all':
        sol = C.Solution(f, E)
        names.update(inner)
        if how not in ('renamed', 'partial', 'swapped'):
            names.update({'s.a.1': 'a.1', 's.b.2': 'b.2'})
        compare(ctx, 'all nodes', sol, want, Z, names)
    elif nodes == 'none':
        sol = C.Solution(f, E, nodes=[])
        compare(ctx, 'this level', sol, want, Z, names)
        ctx.true('inner nodes not evaluated', not any(n in sol for n in inner))
    else:
        sol = C.Solution(f, E, nodes=list(nodes))
        names.update(inner)
        compare(ctx, 'selected nodes', sol, want, Z, names, only=nodes)
    if how == 'plain' and nodes == 'all':
        Zr = ctx.real('Zr', 0, s=(10., 90.))
        want = N.solution(['a.1', 'c.2'], {'a.1': E[ext[0]], 'c.2': E['c.2']}, Zr)
        compare(ctx, 'other reference', C.Solution(f, E, Zbase=Zr), want, Zr, names)


def deep(ctx, how):
    """three levels"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2).block('b', 2, 'num').block('c', 2, 'num')
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    z = ctx.real('z', 0, s=(10., 90.))
    N.term('c.2', Z=z)
    S = rfCircuit(Zbase=Z)
    S.addblock('b', N.blocks['b'][3])
    S.addblock('c', N.blocks['c'][3])
    S.connect('b.2', 'c.1')
    S.terminate('c.2', Z=z)
    T = rfCircuit(Zbase=Z)
    T.addblock('a', N.blocks['a'][3])
    T.addblock('s', S, ports=['in'] if how == 'renamed' else None)
    T.connect('a.2', 's.in' if how == 'renamed' else 's.b.1')
    if how == 'renamed':
        T.connect('a.1', 'in')
    C = rfCircuit(Zbase=Z)
    C.addblock('t', T, ports=['x'] if how == 'renamed' else None)
    ext = ['t.x' if how == 'renamed' else 't.a.1']
    E = excite(ctx, ext)
    want = N.solution(['a.1'], {'a.1': E[ext[0]]})
    sol = C.Solution(f, E)
    names = {ext[0]: 'a.1', 't.a.2': 'a.2', 't.s.b.2': 'b.2', 't.s.c.1': 'c.1',
             't.s.c.2': 'c.2', 't.s.in' if how == 'renamed' else 't.s.b.1': 'b.1'}
    compare(ctx, 'all nodes', sol, want, Z, names)
    sol = C.Solution(f, E, nodes=['t.s.c.1'])
    compare(ctx, 'one node', sol, want, Z, names, only=['t.s.c.1'])


def power(ctx, name):
    """the excitation, the reflected waves and S agree; no excitation, no voltage"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    ext = STRUCT(name, N, lambda n: ctx.real(n, 0, s=(1., 90.)))
    C = N.build()
    E = excite(ctx, ext)
    for Zr in (None, ctx.real('Zr', 0, s=(10., 90.))):
        sol = C.Solution(f, E, Zr)
        S = C.getS(f, Zr)
        a = np.array([E[p] for p in C.ports])
        b = S @ a
        for k, p in enumerate(C.ports):
            ctx.eq('incident wave', sol[p][2], a[k])
            ctx.eq('reflected wave', sol[p][3], b[k])
    sol = C.Solution(f, {p: 0. for p in ext})
    for p in sol:
        ctx.eq('no excitation', np.array(sol[p]), np.zeros(4))


def two(ctx):
    """frequencies alternate"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = [ctx.real('f%d' % i, 0, s=(2e7, 6e7)) for i in (0, 1)]
    ctx.assume(f[0] < f[1])
    A = [ctx.cmat('A%d' % i, 2) for i in (0, 1)]
    B = [ctx.cmat('B%d' % i, 2) for i in (0, 1)]
    z = ctx.real('z', 0, s=(10., 90.))
    C = rfCircuit(Zbase=Z)
    C.addblock('a', rfBase(Ss=A, fs=f, Zbase=Z))
    C.addblock('b', rfBase(Ss=B, fs=f, Zbase=Z))
    C.connect('a.2', 'b.1')
    C.terminate('b.2', Z=z)
    e = ctx.cplx('e')
    for i in (0, 1, 1, 0):
        N = Net(ctx, f[i], Z).block('a', 2, mat=A[i]).block('b', 2, mat=B[i])
        N.conn('a.2', 'b.1').term('b.2', Z=z)
        compare(ctx, 'frequency %d' % i, C.Solution(f[i], {'a.1': e}),
                N.solution(['a.1'], {'a.1': e}), Z)


def cases(tier):
    out = []
    for s in ('cascade', 'cascade reversed', 'cascade3', 'three port and two port', 'load',
              'double', 'loop', 'named port', 'two named ports', 'shunt', 'shunt first',
              'junction3', 'junction4', 'junction of one block', 'two junctions',
              'junction used later', 'junction extended', 'terminated Z', 'terminated Y',
              'terminated RC', 'terminated short', 'terminated open', 'terminations',
              'terminated junction', 'terminated port', 'similar names', 'junction5'):
        out.append(('%s' % s, 'flat', dict(kw=dict(name=s, ref='own'))))
        if s in ('cascade', 'shunt', 'load', 'terminated Z', 'junction3', 'loop'):
            out.append(('%s reference' % s, 'flat', dict(kw=dict(name=s, ref='other'))))
            out.append(('%s solved' % s, 'flat', dict(kw=dict(name=s, ref='solved'))))
    for s in ('cascade', 'shunt', 'terminations'):
        for r in ('own', 'other') if s != 'terminations' else ('own',):
            out.append(('solve %s %s' % (s, r), 'solve', dict(kw=dict(name=s, ref=r))))
    for h in ('plain', 'renamed', 'partial', 'swapped', 'other', 'order'):
        out.append(('nested ' + h, 'nested', dict(kw=dict(how=h))))
        out.append(('nested %s none' % h, 'nested', dict(kw=dict(how=h, nodes='none'))))
    out.append(('nested one node', 'nested', dict(kw=dict(how='plain', nodes=['s.a.2']))))
    out.append(('nested nodes', 'nested', dict(
        kw=dict(how='plain', nodes=['s.b.1', 'c.1', 's.a.2']))))
    out.append(('nested renamed node', 'nested', dict(
        kw=dict(how='renamed', nodes=['s.b.1', 's.x']))))
    for h in ('plain', 'renamed'):
        out.append(('deep ' + h, 'deep', dict(kw=dict(how=h))))
    for s in ('cascade', 'three port and two port', 'shunt', 'named port'):
        out.append(('waves ' + s, 'power', dict(kw=dict(name=s))))
    out.append(('frequencies', 'two', {}))
    return out
