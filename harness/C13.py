"""rfCircuit.maxV: the maximum voltage and where it occurs"""
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL, rfObject, rfCoupler
from hxutil import *
from hxcirc import *

META = dict(
    bounds='the structures of C09 with fixed block matrices and arbitrary excitations and '
           'terminations; leaves of each kind of object; nesting up to 2 levels; '
           'positions symbolic',
    assumptions=['the circuit equations are non singular'])


def excite(ctx, ports, k=1):
    """the first port (in alphabetical order) arbitrary, the others fixed"""
    return {p: ctx.real('a_%d' % i, s=(-1., 1.)) if i < k else (3 - i) / 4 + .25j * i
            for i, p in enumerate(sorted(ports))}


def check_nodes(ctx, label, vsw, want, names=None):
    """vsw: node -> ([x], [|V|])"""
    for p in (names or want):
        ctx.true(label + ': has ' + p, p in vsw)
        xs, Vs = vsw[p]
        ctx.true(label + ': one value', len(xs) == 1 and len(Vs) == 1)
        ctx.eq(label + ': |V|', Vs[0], np.abs(want[names[p] if names else p][0]))


def check_max(ctx, Vmax, values, label=''):
    """Vmax is the largest of the values"""
    d = 1.
    for v in values:
        ctx.le(label + 'no larger value', v, Vmax)
        d = d * (v - Vmax)
    ctx.eq(label + 'one of the values', d, 0.)


def nodes(ctx, name, ref='own'):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    if name.startswith('term'):
        Z = N.Z = 64.
    blk = N.block
    N.block = lambda n, p, how='num', *a, **k: blk(n, p, 'num', *a, **k)
    ext = STRUCT(name, N, lambda n: 35.)
    C = N.build()
    E = excite(ctx, ext)
    Zr = None if ref == 'own' else 2 * Z
    Vmax, where, vsws = C.maxV(f, dict(E), Zbase=Zr, Id='top')
    want = N.solution(ext, E, Zr)
    ctx.true('one entry', list(vsws) == ['top'])
    check_nodes(ctx, 'nodes', vsws['top'], want)
    leaf = []
    for b, (ports, S, Zb, o) in N.blocks.items():
        ctx.true('leaf', list(vsws['top'][b]) == list(ports))
        for p in ports:
            ctx.eq('leaf voltages', vsws['top'][b][p][1][0], np.abs(want[b + '.' + p][0]))
    check_max(ctx, Vmax, [np.abs(v[0]) for v in want.values()])
    ctx.true('where', isinstance(where, str))
    if where.startswith('top.'):
        ctx.eq('where it occurs', Vmax, np.abs(want[where[4:]][0]))


def missing(ctx):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2, 'num').block('b', 2, 'num').conn('a.2', 'b.1')
    ctx.raises('undeclared port', ValueError, N.build().maxV, f, {'a.1': 1.})


def leaf(ctx, kind):
    """the objects of a circuit are asked for their maximum with the right excitation"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2, 'num')
    if kind == 'rlc':
        ob = rfRLC(Rs=ctx.real('R', 0, s=(1., 50.)), Zbase=Z, ports=['s', 'p'])
    elif kind == 'rlc renamed':
        ob = rfRLC(Rs=ctx.real('R', 0, s=(1., 50.)), Zbase=Z)
    elif kind == 'object':
        ob = rfObject([[.5, .25j], [.125, -.25]], Zbase=Z, ports=['s', 'p'])
    elif kind in ('base', 'base other'):
        S = N.mat('Sb', 2, 'num')
        ob = rfBase(Ss=[S], fs=[f], Zbase=Z if kind == 'base' else 2 * Z, ports=['s', 'p'])
    S = ob.getS(f, Zbase=Z)
    N.block('b', ['s', 'p'], mat=np.array(S))
    C = rfCircuit(Zbase=Z)
    C.addblock('a', N.blocks['a'][3])
    C.addblock('b', ob, ports=['s', 'p'] if kind == 'rlc renamed' else None)
    C.connect('a.2', 'b.s')
    N.conn('a.2', 'b.s')
    E = excite(ctx, ['a.1', 'b.p'])
    want = N.solution(['a.1', 'b.p'], E)
    Vmax, where, vsws = C.maxV(f, dict(E), Id='top')
    check_nodes(ctx, 'nodes', vsws['top'], want)
    v = vsws['top']['b']
    s, p = np.abs(want['b.s'][0]), np.abs(want['b.p'][0])
    if kind.startswith('base'):
        ctx.eq('leaf', np.array([v['s'][1][0], v['p'][1][0]]), np.array([s, p]))
    elif kind.startswith('rlc'):
        ctx.eq('leaf', v[1], np.array([s, p]))
    else:
        check_max(ctx, v[1][0], [s, p])
    check_max(ctx, Vmax, [np.abs(x[0]) for x in want.values()])


def line(ctx, half, back=False):
    """a line: the maximum may be inside"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    Z0 = ctx.real('Z0', 0, s=(10., 90.))
    if half:
        L = C0 / (2 * f)
        TL = rfTRL(L=L, Zbase=Z, Z0TL=Z0, dx=L / 2.5, **({'xpos': [L, 0.]} if back else {}))
    else:
        Z, Z0, L = 64., 25., C0 / (4 * f)
        TL = rfTRL(L=L, Zbase=Z, Z0TL=Z0, dx=300.)
    C = rfCircuit(Zbase=Z)
    x0 = ctx.real('x0', s=(.1, .5))
    C.addblock('TL', TL, relpos=x0)
    C.terminate('TL.2', Z=Z)
    a = ctx.real('a', 0, s=(.1, 1.))
    Vmax, where, vsws = C.maxV(f, {'TL.1': a}, Id='top')
    xs, U = vsws['top']['TL']
    if half:
        # matched: |V| = a at the ends, and Z0/Z a in the middle
        ctx.eq('voltages along the line', U, np.array([a, a * Z0 / Z, a]))
        ctx.eq('positions', xs, np.array([x0, x0 + L / 2, x0 + L][::-1 if back else 1]))
        ctx.le('maximum', a, Vmax)
        ctx.le('maximum', a * Z0 / Z, Vmax)
        ctx.eq('one of the values', (Vmax - a) * (Vmax - a * Z0 / Z), 0.)
    else:
        # quarter wave: Zin = Z0^2/Z, V1 = 2 a Zin/(Zin+Z), |V2| = Z |I2| = Z |V1| / Z0
        Zi = Z0 ** 2 / Z
        V1 = 2 * a * Zi / (Zi + Z)
        V2 = V1 * Z / Z0
        ctx.eq('voltages along the line', np.array([U[0], U[-1]]), np.array([V1, V2]))
        ctx.eq('positions', np.array([xs[0], xs[-1]]), np.array([x0, x0 + L]))
    ctx.eq('port position', vsws['top']['TL.1'][0][0], x0 + L if back else x0)


def nested(ctx, how):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2, 'num').block('b', 2, 'num').block('c', 2, 'num')
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    Zs = Z if how != 'other' else 2 * Z
    S = rfCircuit(Zbase=Zs, **({'Portnames': ['b.2', 'a.1']} if how == 'order' else {}))
    S.addblock('a', N.blocks['a'][3])
    S.addblock('b', N.blocks['b'][3])
    S.connect('a.2', 'b.1')
    C = rfCircuit(Zbase=Z)
    pn = {'renamed': {'a.1': 'x', 'b.2': 'y'}, 'swapped': {'a.1': 'b.2', 'b.2': 'a.1'}}.get(how)
    p, q = {'renamed': ('x', 'y'), 'swapped': ('b.2', 'a.1')}.get(how, ('a.1', 'b.2'))
    C.addblock('c', N.blocks['c'][3])
    C.addblock('s', S, ports=pn)
    C.connect('s.' + q, 'c.1')
    E = excite(ctx, ['s.' + p, 'c.2'])
    want = N.solution(['a.1', 'c.2'], {'a.1': E['s.' + p], 'c.2': E['c.2']})
    Vmax, where, vsws = C.maxV(f, dict(E), Id='top')
    check_nodes(ctx, 'nodes', vsws['top'], want,
                {'s.' + p: 'a.1', 's.' + q: 'b.2', 'c.1': 'c.1', 'c.2': 'c.2'})
    ctx.true('inner entry', 's' in vsws['top'])
    check_nodes(ctx, 'inner nodes', vsws['top']['s'], want,
                {k: k for k in ('a.1', 'a.2', 'b.1', 'b.2')})
    check_max(ctx, Vmax, [np.abs(x[0]) for x in want.values()])


def positions(ctx, depth, order):
    """positions within nested circuits"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    X = [ctx.real('X%d' % i, s=(.1, 2.)) for i in range(6)]
    S = np.array([[.5, .25j], [.125, -.25]])
    mk = lambda k: rfBase(Ss=[S], fs=[f], Zbase=Z, xpos=[X[k], X[k + 1]], ports=['1', '2'])
    I = rfCircuit(Zbase=Z, Id='I', **({'Portnames': ['b.2', 'a.1']} if order else {}))
    I.addblock('a', mk(0), relpos=X[2])
    I.addblock('b', mk(1), relpos=X[3])
    I.connect('a.2', 'b.1', 'T')
    I.terminate('T', Z=20.)
    C, name, off = I, 'I', 0.
    for d in range(depth):
        O = rfCircuit(Zbase=Z, Id='O%d' % d)
        O.addblock('n%d' % d, C, relpos=X[4 + d])
        off = off + X[4 + d]
        C = O
    C.getS(f)
    V = C.maxV(f, {p: 1. for p in C.ports}, Id='top')[2]['top']
    pre = ['n%d' % d for d in range(depth)][::-1]
    for n, x in (('a.1', X[2] + X[0]), ('b.2', X[3] + X[2])):
        q = '.'.join(pre + [n])
        ctx.eq('position of port ' + n, V[q][0][0], off + x)
        ctx.eq('position of port ' + n, C.xpos[C.ports.index(q)], off + x)
    for n in pre:
        V = V[n]
    for n, x in (('a.1', X[2] + X[0]), ('a.2', X[2] + X[1]), ('b.1', X[3] + X[1]),
                 ('b.2', X[3] + X[2]), ('T', X[2] + X[1])):
        ctx.eq('position of ' + n, V[n][0][0], off + x)
        if n != 'T':
            b, p = n.split('.')
            ctx.eq('position in leaf ' + n, V[b][p][0][0], off + x)
            ctx.eq('getpos of ' + n, C.getpos('.'.join(pre + [n])), off + x)


def moved(ctx, depth, late):
    """positions after the length of a line is set"""
    f, Z = ctx.real('f', 1e6, s=(2e7, 6e7)), ctx.real('Z', 1, s=(10., 90.))
    p = [ctx.real('p%d' % i, s=(.1, 2.)) for i in range(4)]
    L = ctx.real('L', .25, 1., s=(.3, 1.))
    C = rfCircuit(Zbase=Z, Id='I')
    C.addblock('a', rfTRL(L=L / 2, Z0TL=30., dx=300.), relpos=p[0])
    C.addblock('r', rfRLC(Rs=20.), relpos=p[1])
    o = ctx.real('o', s=(.1, 2.))
    C.addblock('b', rfTRL(L=L / 4, Z0TL=30., dx=300., xpos=[o, o + L / 4]), relpos=p[2] - o)
    C.addblock('d', np.array([[.5, .25], [.125, .25]]), relpos=p[1])
    C.connect('a.2', 'r.s', 'T')
    C.deembed({'a.1': 'u', 'T': 'w'}, {})
    pre = ''
    off = 0.
    for d in range(depth):
        O = rfCircuit(Zbase=Z, Id='O%d' % d)
        O.addblock('n', C, relpos=p[3] + d)
        O.connect('n.x%d' % (d - 1) if d else 'n.b.2', 'x%d' % d)
        pre, off = pre + 'n.', off + p[3] + d
        C = O
    if late == 'evaluated':
        C.getS(f)
    old = list(C.xpos)
    C.resolve_xpos()
    ctx.eq('the positions are the same', np.array(C.xpos), np.array(old))
    C.set(pre + 'a.L', L)
    if late == 'both':
        C.set(pre + 'b', {'L': L / 8})
    if late == 'zero':
        C.set(pre + 'b.L', 0.)
    LB = {'both': L / 8, 'zero': 0.}.get(late, L / 4)
    want = {pre + 'u': p[0], pre + 'w': p[0] + L, pre + 'r.p': p[1], pre + 'b.1': p[2],
            'x%d' % (depth - 1) if depth else 'b.2': p[2] + LB,
            pre + 'd.1': p[1], pre + 'd.2': p[1]}
    seen = dict(zip(C.ports, C.xpos))
    for q in C.ports:
        ctx.eq('position of ' + q, seen[q], want[q] + off)
        ctx.eq('getpos of ' + q, C.getpos(q), want[q] + off)
    if not depth:
        ctx.eq('getpos of T', C.getpos('T'), p[0] + L)
        ctx.eq('getpos of a.2', C.getpos('a.2'), p[0] + L)


def similar(ctx, names):
    """blocks with names that are the beginning of each other"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    for n in names:
        N.block(n, 2, 'num')
    for a, b in zip(names[:-1], names[1:]):
        N.conn(a + '.2', b + '.1')
    ext = [names[0] + '.1', names[-1] + '.2']
    E = excite(ctx, ext)
    C = N.build()
    V = C.maxV(f, dict(E), Id='top')[2]['top']
    want = N.solution(ext, E)
    check_nodes(ctx, 'nodes', V, want)
    for n in names:
        for p in ('1', '2'):
            ctx.eq('leaf voltages', V[n][p][1][0], np.abs(want['%s.%s' % (n, p)][0]))


def named(ctx, how):
    """named nodes"""
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z = 64. if how == 'terminated' else ctx.real('Z', 0, s=(10., 90.))
    x = [ctx.real('x%d' % i, s=(.1, 2.)) for i in range(2)]
    N = Net(ctx, f, Z).block('a', 2, 'num').block('b', 2, 'num')
    C = rfCircuit(Zbase=Z)
    for k, n in enumerate('ab'):
        C.addblock(n, N.blocks[n][3], relpos=x[k])
    ops = [('connect', 'a.2', 'b.1', 'T')]
    if how == 'terminated':
        ops.append(('terminate', 'T', dict(Z=20.)))
    elif how == 'connected':
        N.block('c', 1, 'num')
        C.addblock('c', N.blocks['c'][3])
        ops.append(('connect', 'T', 'c.1'))
    for o in ops:
        N.order.append(o)
        N.apply(C, o)
    ext = ['a.1', 'b.2'] + (['T'] if how == 'external' else [])
    E = excite(ctx, ext)
    want = N.solution(ext, E)
    Vmax, where, vsws = C.maxV(f, dict(E), Id='top')
    check_nodes(ctx, 'nodes', vsws['top'], want)
    check_max(ctx, Vmax, [np.abs(v[0]) for v in want.values()])
    for n, p in (('a.1', x[0]), ('a.2', x[0]), ('b.1', x[1]), ('b.2', x[1]), ('T', x[0])):
        ctx.eq('position of ' + n, vsws['top'][n][0][0], p)


def twice(ctx):
    """results do not depend on earlier excitations"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2, 'num').block('b', 1, 'num').conn('a.2', 'b.1')
    C = N.build()
    for k in range(2):
        e = ctx.real('e%d' % k, s=(-1., 1.))
        Vmax, where, vsws = C.maxV(f, {'a.1': e}, Id='top')
        want = N.solution(['a.1'], {'a.1': e})
        check_nodes(ctx, 'nodes', vsws['top'], want)
        check_max(ctx, Vmax, [np.abs(v[0]) for v in want.values()])


def alone(ctx, kind):
    """the maximum of one object"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    Zr = 2 * Z if 'ref' in kind else Z
    S = np.array([[.5, .25j], [.125, -.25]])
    if kind.startswith('base'):
        ob = rfBase(Ss=[S], fs=[f], Zbase=Z, ports=['s', 'p'], xpos=[0., 1.])
    elif kind.startswith('object'):
        ob = rfObject(S, Zbase=Z, ports=['s', 'p'])
    else:
        ob = rfRLC(Rs=25., Zbase=Z, ports=['s', 'p'])
    a = np.array([ctx.real('a0', s=(-1., 1.)), .5 - .25j])
    E = dict(zip(['s', 'p'], a))
    res = ob.maxV(f, dict(E), Zr) if 'ref' in kind else ob.maxV(f, dict(E))
    V = np.abs(a + ob.getS(f, Zbase=Zr) @ a)
    check_max(ctx, res[0], list(V))
    k = 0 if res[1].split('.')[-1] == 's' else 1
    ctx.true('port', res[1].split('.')[-1] in ('s', 'p'))
    ctx.eq('where it occurs', res[0], V[k])
    if kind.startswith('base'):
        v = list(res[2].values())[0]
        ctx.eq('port voltages', np.array([v['s'][1][0], v['p'][1][0]]), V)
        ctx.eq('port positions', np.array([v['s'][0][0], v['p'][0][0]]), np.array([0., 1.]))
        ctx.raises('unknown port', ValueError, ob.maxV, f, {'s': 1., 'u': 1.})
        # ports that are not mentioned are not excited
        W = np.abs(np.array([a[0], 0.]) + ob.getS(f, Zbase=Zr) @ np.array([a[0], 0.]))
        v = list(ob.maxV(f, {'s': a[0]}, Zr)[2].values())[0]
        ctx.eq('one excited port', np.array([v['s'][1][0], v['p'][1][0]]), W)


def cases(tier):
    out = []
    for s in ('cascade', 'first ports', 'three port and two port', 'load', 'loop',
              'named port', 'shunt', 'terminated Z', 'terminated short', 'terminated junction',
              'terminated port', 'junction used later', 'similar names'):
        out.append((s, 'nodes', dict(kw=dict(name=s))))
    for s in ('cascade', 'shunt'):
        out.append((s + ' reference', 'nodes', dict(kw=dict(name=s, ref='other'))))
    out.append(('missing', 'missing', {}))
    for k in ('rlc', 'rlc renamed', 'object', 'base', 'base other'):
        out.append(('leaf ' + k, 'leaf', dict(kw=dict(kind=k))))
    for h in (0, 1):
        out.append(('line 1' + ' back' * h, 'line', dict(kw=dict(half=1, back=h))))
    for h in ('plain', 'renamed', 'swapped', 'other', 'order'):
        out.append(('nested ' + h, 'nested', dict(kw=dict(how=h))))
    for h in ('external', 'terminated', 'connected'):
        out.append(('named ' + h, 'named', dict(kw=dict(how=h))))
    out.append(('twice', 'twice', {}))
    for d in (0, 1, 2):
        for o in (0, 1):
            out.append(('positions %d%s' % (d, ' ordered' * o), 'positions',
                        dict(kw=dict(depth=d, order=o))))
    for d in (0, 1, 2):
        for h in ('built', 'evaluated', 'both', 'zero'):
            out.append(('moved %d %s' % (d, h), 'moved', dict(kw=dict(depth=d, late=h))))
    for n in ('a aa a1', 'aa a', 'x1 x', 'T TT'):
        out.append(('similar ' + n, 'similar', dict(kw=dict(names=n.split()))))
    for k in ('base', 'base ref', 'object', 'object ref', 'rlc', 'rlc ref'):
        out.append(('alone ' + k, 'alone', dict(kw=dict(kind=k))))
    return out
