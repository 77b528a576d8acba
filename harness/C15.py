"""rfCircuit.deembed: a known part is removed from a circuit"""
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfTRL, rfRLC
from hxutil import *
from hxcirc import *

META = dict(
    bounds='a known part (fixture) with as many external as internal ports: 1 or 2 2-ports '
           'or a 4-port, or with one external and two internal ports; the part, the rest '
           'and the total of arbitrary complex S (up to 4 ports); all excitations; '
           'mappings as lists and as dicts; nested circuits; lines and lumped elements',
    assumptions=['the circuit equations are non singular (the fixture transmits)'])


def zf(ctx):
    return ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))


def rest(ctx, label, C, f, names, want):
    """names: port of C -> port index of want"""
    S = C.getS(f)
    ctx.true(label + ': external ports', sorted(C.ports) == sorted(names))
    k = [names[p] for p in C.ports]
    ctx.true(label + ': shape', np.shape(S) == (len(k), len(k)))
    ctx.eq(label, S, want[k, :][:, k])
    ctx.true(label + ': a position per port', len(C.xpos) == len(C.ports))


def simple(ctx, how):
    """total = rest (p, q) cascaded with the fixture (q, e)"""
    f, Z = zf(ctx)
    N = Net(ctx, f, Z).block('x', ['p', 'q']).block('d', ['i', 'e']).conn('x.q', 'd.i')
    T = N.smatrix(['x.p', 'd.e'])
    X, D = N.blocks['x'][1], N.blocks['d'][1]
    C = rfCircuit(Zbase=Z)
    order = [('T', T, ['p', 'e']), ('D', D, ['i', 'e'])]
    if how == 'fixture first':
        order = order[::-1]
    for n, S, ports in order:
        if how == 'array':
            C.addblock(n, S, ports=ports)
        else:
            C.addblock(n, rfBase(Ss=[S], fs=[f], ports=ports, Zbase=Z))
    I, E = [('D.i', 'new')], [('D.e', 'T.e')]
    if how == 'dict':
        I, E = dict(I), dict(E)
    elif how == 'ext reversed':
        E = [('T.e', 'D.e')]
    I0, E0 = I.copy(), E.copy()
    names = {'T.p': 0, 'new': 1}
    if how == 'separate':
        C.deembed(I, {})
        C.deembed([], E)
    elif how == 'separate reversed':
        C.deembed(ExtPorts=E)
        C.deembed(IntPorts=I)
    else:
        C.deembed(I, E)
    if how == 'after':
        # the circuit is used further
        C.addblock('c', N.mat('c', 2, 'num'), ports=['1', '2'])
        C.connect('c.1', 'new')
        M = Net(ctx, f, Z).block('x', ['p', 'q'], mat=X)
        M.block('c', ['1', '2'], mat=N.mat('c', 2, 'num')).conn('x.q', 'c.1')
        rest(ctx, how, C, f, {'T.p': 0, 'c.2': 1}, M.smatrix(['x.p', 'c.2']))
        return
    if how == 'terminated':
        # the rest of the total remains open for other changes
        C.terminate('T.p', Z=2 * Z)
        M = Net(ctx, f, Z).block('x', ['p', 'q'], mat=X).term('x.p', Z=2 * Z)
        rest(ctx, how, C, f, {'new': 0}, M.smatrix(['x.q']))
        return
    rest(ctx, how, C, f, names, X)
    ctx.true('mappings not modified', I == I0 and E == E0)
    if how == 'plain':
        # the excitation of the rest and the voltages at the nodes
        E = {p: ctx.cplx('a%d' % k) for k, p in enumerate(C.ports)}
        sol = C.Solution(f, E)
        w = Net(ctx, f, Z).block('x', ['p', 'q'], mat=X)
        w = w.solution(['x.p', 'x.q'], {'x.p': E['T.p'], 'x.q': E['new']})
        for p, q in (('T.p', 'x.p'), ('new', 'x.q')):
            ctx.eq('voltage', sol[p][0], w[q][0])
            ctx.eq('current', sol[p][1], w[q][1])
        # the fixture's inner port carries the same voltage, the opposite current
        ctx.eq('fixture voltage', sol['D.i'][0], w['x.q'][0])
        ctx.eq('fixture current', sol['D.i'][1], -w['x.q'][1])
        ctx.eq('total voltage', sol['T.e'][0], sol['D.e'][0])
        ctx.eq('total current', sol['T.e'][1], sol['D.e'][1])


def several(ctx, how):
    """more ports"""
    f, Z = zf(ctx)
    N = Net(ctx, f, Z)
    if how == 'both sides':
        N.block('x', ['p', 'q']).block('d', ['i', 'e']).block('g', ['i', 'e'], 'num')
        N.conn('x.q', 'd.i').conn('x.p', 'g.i')
        ext, I = ['d.e', 'g.e'], {'d.i': 'q', 'g.i': 'p'}
        names = {'p': 0, 'q': 1}
    elif how == 'three ports':
        N.block('x', ['p', 'q', 'r'], 'num').block('d', ['i', 'e']).block('g', ['i', 'e'], 'num')
        N.conn('x.q', 'd.i').conn('x.p', 'g.i')
        ext, I = ['x.r', 'g.e', 'd.e'], {'d.i': 'Q', 'g.i': 'P'}
        names = {'P': 0, 'Q': 1, 'T.x.r': 2}
    elif how == 'coupled':
        N.block('x', ['p', 'q'], 'num').block('d', ['i', 'j', 'e', 'f'])
        N.conn('x.q', 'd.i').conn('x.p', 'd.j')
        ext, I = ['d.e', 'd.f'], {'d.i': 'q', 'd.j': 'p'}
        names = {'p': 0, 'q': 1}
    elif how == 'coupled three':
        N.block('x', ['p', 'q', 'r']).block('d', ['e', 'i', 'j', 'f'], 'num')
        N.conn('x.q', 'd.i').conn('x.p', 'd.j')
        ext, I = ['d.f', 'x.r', 'd.e'], {'d.i': 'q', 'd.j': 'p'}
        names = {'p': 0, 'q': 1, 'T.x.r': 2}
    T = N.smatrix(ext)
    C = rfCircuit(Zbase=Z)
    C.addblock('T', rfBase(Ss=[T], fs=[f], ports=ext, Zbase=Z))
    E = {}
    for n in 'dg':
        if n in N.blocks:
            C.addblock(n, N.blocks[n][3])
            E.update({n + '.' + p: 'T.' + n + '.' + p for p in N.blocks[n][0] if p in 'ef'})
    if how == 'coupled':
        E = list(E.items())[::-1]
    C.deembed(I, E)
    rest(ctx, how, C, f, names, N.blocks['x'][1])


def relation(ctx):
    """two internal ports, one external: every state of the total and of the fixture
    that agree at the common port is a state of the result"""
    f, Z = zf(ctx)
    T = ctx.cmat('T', 2)
    D = ctx.cmat('D', 3)
    C = rfCircuit(Zbase=Z)
    C.addblock('T', T, ports=['p', 'e'])
    C.addblock('D', D, ports=['i', 'j', 'e'])
    C.deembed({'D.i': 'x', 'D.j': 'y'}, {'D.e': 'T.e'})
    S = C.getS(f)
    ctx.true('ports', sorted(C.ports) == ['T.p', 'x', 'y'])
    # a state: ap, ae free -> bp, be; ai free -> aj from be, bi, bj
    for ap, ae, ai in ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)):
        bp, be = T @ np.array([ap, ae])
        aj = (be - D[2, 0] * ai - D[2, 2] * ae) / D[2, 1]
        bi, bj, be2 = D @ np.array([ai, aj, ae])
        ctx.eq('consistent', be, be2)
        # a wave leaving the fixture enters the rest
        w = {'T.p': (ap, bp), 'x': (bi, ai), 'y': (bj, aj)}
        a = np.array([w[p][0] for p in C.ports])
        b = np.array([w[p][1] for p in C.ports])
        ctx.eq('state', S @ a, b)


def nested(ctx, how):
    """total and fixture are circuits, with other reference impedances"""
    f, Z = zf(ctx)
    Zd = ctx.real('Zd', 0, s=(10., 90.)) if how == 'other' else Z
    N = Net(ctx, f, Z).block('x', ['p', 'q']).block('d', ['i', 'e'], 'num')
    N.block('h', ['i', 'e'], 'num').conn('x.q', 'h.i').conn('h.e', 'd.i')
    tot = rfCircuit(Zbase=Z)
    for n in 'xhd':
        tot.addblock(n, N.blocks[n][3])
    tot.connect('x.q', 'h.i')
    tot.connect('h.e', 'd.i')
    if how == 'named':
        tot.connect('d.e', 'out')
    fix = rfCircuit(Zbase=Zd)
    fix.addblock('d', N.blocks['d'][3])
    fix.addblock('h', N.blocks['h'][3])
    fix.connect('h.e', 'd.i')
    if how == 'solved':
        tot.getS(f)
        fix.getS(f)
    C = rfCircuit(Zbase=Z)
    C.addblock('T', tot, **({'ports': {'x.p': 'in', 'd.e': 'out'}} if how == 'renamed' else {}))
    C.addblock('D', fix)
    p, q = {'named': ('x.p', 'out'), 'renamed': ('in', 'out')}.get(how, ('x.p', 'd.e'))
    C.deembed([('D.h.i', 'r')], [('D.d.e', 'T.' + q)])
    X = N.blocks['x'][1]
    rest(ctx, how, C, f, {'T.' + p: 0, 'r': 1}, X)
    # used in another circuit
    O = rfCircuit(Zbase=Z)
    O.addblock('C', C)
    O.terminate('C.r', Z=3 * Z)
    M = Net(ctx, f, Z).block('x', ['p', 'q'], mat=X).term('x.q', Z=3 * Z)
    rest(ctx, 'used', O, f, {'C.T.' + p: 0}, M.smatrix(['x.p']))


def elements(ctx):
    """a line and a capacitor are removed from an inductor; other frequencies"""
    f1 = ctx.real('f1', 0, s=(2e7, 6e7))
    f2 = f1 + ctx.real('df', 0, s=(1e7, 2e7))
    L = ctx.real('L', 0, s=(1e-8, 1e-7))
    A = rfTRL(L=.5, Z0TL=30., Zbase=50., dx=300.)
    X = lambda: rfRLC(Ls=L, Rp=70., Zbase=50.)
    tot = rfCircuit()
    tot.addblock('x', X())
    tot.addblock('a', A, ports=['1', '2'])
    tot.connect('x.p', 'a.1')
    C = rfCircuit()
    C.addblock('T', tot)
    C.addblock('D', A, ports=['1', '2'])
    C.deembed([('D.1', 'n')], [('D.2', 'T.a.2')])
    for f in (f1, f2, f1):
        S = C.getS(f)
        k = [['T.x.s', 'n'].index(p) for p in C.ports]
        ctx.eq('element', S, X().getS(f)[k, :][:, k])


def errors(ctx):
    f, Z = zf(ctx)
    T, D = ctx.cmat('T', 2), ctx.cmat('D', 2)

    def make():
        C = rfCircuit(Zbase=Z)
        C.addblock('T', T, ports=['p', 'e'])
        C.addblock('D', D, ports=['i', 'e'])
        return C
    for I, E in (([('D.i', 'T.p')], []), ([('D.x', 'n')], []), ([], [('D.x', 'T.e')]),
                 ([], [('D.e', 'T.x')]), ([('D.i', 'n'), ('D.e', 'n')], []),
                 (['D.i'], []), ([], [('D.e',)]), ([('D.i', 3)], []), ('D.i', [])):
        ctx.raises('invalid ports', ValueError, lambda: make().deembed(I, E))


def cases(tier):
    for how in ('plain', 'array', 'fixture first', 'dict', 'ext reversed', 'separate',
                'separate reversed', 'after', 'terminated'):
        yield how, 'simple', dict(kw=dict(how=how))
    for how in ('both sides', 'three ports', 'coupled', 'coupled three'):
        yield how, 'several', dict(kw=dict(how=how))
    yield 'more internal ports', 'relation', {}
    for how in ('plain', 'solved', 'named', 'renamed', 'other'):
        yield 'nested ' + how, 'nested', dict(kw=dict(how=how))
    yield 'elements', 'elements', {}
    yield 'invalid', 'errors', {}
