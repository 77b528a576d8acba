"""copies and originals are independent; arguments are left as they were"""
import copy
import os
import shutil
import tempfile
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL, rfObject, rfCoupler, rfArcObj, rfGTL
from pyRFtk import ConvertGeneral, S_from_Z, Z_from_S, S_from_Y, Y_from_S, maxfun
from pyRFtk import S_from_VI
from hxutil import *

META = dict(
    bounds='one object of each class (circuits nested up to 2 levels), copied in 3 ways before '
           'or after evaluations, then changed in every way the class offers; all values, '
           'matrices, frequencies and impedances symbolic',
    assumptions=['the circuit equations are non singular'])

KINDS = {
    # kind: ways of changing it
    'trl': ['L', 'ports'],
    'rlc': ['Rs', 'Cp', 'params', 'ports'],
    'arc': ['Larc', 'ports'],
    'coupler': ['ports'],
    'base': ['ports', 'Ss'],
    'object': ['sortports', 'Zbase', 'ports'],
    'table': ['setS', 'setitem', 'sortports', 'Zbase', 'deembed'],
    'circuit': ['set', 'params', 'terminate', 'replace'],
    'nested': ['set', 'replace', 'params', 'terminate', 'deep replace'],
    'gtl': ['set', 'params', 'terminate'],
}
FILES = []


def mk(ctx, kind, v):
    """an object; v: its values"""
    Z, f = v['Z'], v['f']
    P = ['s', 'p']
    if kind == 'trl':
        return rfTRL(L=v['L'], Z0TL=v['Z0'], dx=300., ports=P, Zbase=Z)
    if kind == 'rlc':
        return rfRLC(Rs=v['R'], Cp=v['C'], ports=P, Zbase=Z)
    if kind == 'arc':
        return rfArcObj(v['Ls'], ports=['s'], Zbase=Z)
    if kind == 'coupler':
        return rfCoupler(kC=v['k'], ports=['s', 'p', 'u', 'v'], Zbase=Z)
    if kind == 'base':
        return rfBase(Ss=[v['S'], v['T']], fs=[f, v['f2']], ports=P, Zbase=Z, xpos=[0., 1.])
    if kind == 'object':
        return rfObject(v['S'], ports=P, Zbase=Z, xpos=[0., 1.])
    if kind == 'table':
        o = rfObject(ports=P, Zbase=Z, interp='RI', interpkws=dict(kind=1))
        o.setS([f, v['f2']], [v['S'], v['T']])
        return o
    if kind == 'circuit':
        C = rfCircuit(Zbase=Z)
        C.addblock('a', mk(ctx, 'rlc', v))
        C.addblock('b', v['S'], ports=['x', 'y'])
        C.addblock('c', mk(ctx, 'arc', v))
        C.connect('a.p', 'b.x', 'c.s')
        return C
    if kind == 'nested':
        C = rfCircuit(Zbase=Z)
        C.addblock('I', mk(ctx, 'circuit', v))
        C.addblock('r', mk(ctx, 'rlc', v), params={'Rs': v['R']})
        C.connect('I.b.y', 'r.s')
        return C
    if kind == 'gtl':
        FILES.append(tempfile.mkdtemp())
        m = os.path.join(FILES[-1], 'x.mod')
        with open(m, 'w') as g:
            g.write("{'VTL': {'Portnames': ['u', 'w'], 'GTL': {"
                    "'A': {'ports': ['u', 'T'], 'L': 'L', 'Z': 'z', 'dx': 300.}, "
                    "'a': {'ports': ['T', 'w'], 'Rs': 'R'}}}}")
        return rfGTL(m, objkey='VTL', Zbase=Z, variables=dict(L=v['L'], z=v['Z0'], R=v['R']))
    raise KeyError(kind)


def values(ctx):
    v = dict(Z=ctx.real('Z', 0, s=(10., 90.)), f=ctx.real('f', 0, s=(2e7, 6e7)),
             L=ctx.real('L', 0, .5, s=(.05, .3)), Z0=ctx.real('Z0', 0, s=(10., 90.)),
             R=ctx.real('R', 0, s=(1., 50.)), C=ctx.real('C', 0, s=(1e-11, 1e-10)),
             Ls=ctx.real('Ls', 0, s=(1e-8, 4e-7)), k=.5,
             S=ctx.cmat('S', 2), T=ctx.cmat('T', 2), new=ctx.real('new', 0, 100., s=(20., 40.)))
    v['f2'] = v['f'] + ctx.real('df', 0, s=(1e6, 2e7))
    return v


def change(ctx, o, kind, how, v):
    n = v['new']
    if how == 'ports':
        o.ports[0] = 'zzz'
        o.xpos[0] = 7.
    elif how == 'L':
        o.set(L=v['L'] + n / 1000)
    elif how == 'Rs':
        o.set(Rs=n)
    elif how == 'Cp':
        o.set(Cp=n * 1e-12)
    elif how == 'Larc':
        o.set(Larc=n * 1e-9)
    elif how == 'params' and kind == 'rlc':
        o.getS(v['f'], params={'Rs': n})
    elif how == 'Ss':
        o.Ss[0, 0, 1] = n
    elif how == 'setS':
        o.setS(v['f'] / 2, np.array([[.5, 0.], [0., n / 100]]))
    elif how == 'setitem':
        o[0] = (v['f'] / 3, np.array([[.5, 0.], [0., n / 100]]))
    elif how == 'sortports':
        o.sortports(['p', 's'])
    elif how == 'Zbase':
        o.convert2newZbase(n)
    elif how == 'deembed':
        o.deembed({'s': n / 200})
    elif how == 'set':
        o.set(**{'I.a.Rs' if kind == 'nested' else 'a.Rs': n})
    elif how == 'params':
        o.getS(v['f'], params={'I': {'a.Rs': n}} if kind == 'nested' else {'a': {'Rs': n}})
    elif how == 'terminate':
        o.terminate({'nested': 'r.p', 'gtl': 'u'}.get(kind, 'b.y'), Z=n)
    elif how == 'replace':
        o.addblock('r' if kind == 'nested' else 'a', rfRLC(Rs=n, Zbase=v['Z']))
    elif how == 'deep replace':
        o.addblock('I.a', rfRLC(Rs=n, Zbase=v['Z']))
    else:
        raise KeyError(how)


def result(o, v):
    return [np.array(o.getS(v[f])) for f in ('f', 'f2')]


COPY = {'copy()': lambda o: o.copy(), 'copy.copy': copy.copy, 'deepcopy': copy.deepcopy}


def independent(ctx, **kw):
    try:
        changed(ctx, **kw)
    finally:
        while FILES:
            shutil.rmtree(FILES.pop())


def changed(ctx, kind, how, cp, late, side):
    v = values(ctx)
    o = mk(ctx, kind, v)
    if late:
        o.getS(v['f'])
        if kind == 'table':
            o.getS((v['f'] + v['f2']) / 2)
    c = COPY[cp](o)
    want = mk(ctx, kind, v)
    W, P, X = result(want, v), list(want.ports), list(want.xpos)
    ctx.true('another object', c is not o)
    a, b = (c, o) if side == 'copy' else (o, c)
    if late > 1:
        # both evaluated
        result(a, v), result(b, v)
    change(ctx, a, kind, how, v)
    if late > 1:
        a.getS(v['f'])
    ctx.true('ports', list(b.ports) == P)
    ctx.eq('positions', np.array(b.xpos), np.array(X))
    for s, w in zip(result(b, v), W):
        ctx.eq('S-matrix', s, w)
    if kind == 'table':
        ctx.eq('between', b.getS((v['f'] + v['f2']) / 2), (v['S'] + v['T']) / 2)
    # the changed one is what it would be without the other
    if how not in ('ports',):
        x = mk(ctx, kind, v)
        change(ctx, x, kind, how, v)
        ctx.true('ports of the changed', list(a.ports) == list(x.ports))
        if how != 'params':
            ctx.eq('changed', a.getS(v['f']), x.getS(v['f']))


def shared(ctx, kind):
    """one object in two circuits and twice in one"""
    v = values(ctx)
    Z2 = ctx.real('Z2', 0, s=(10., 90.))
    o = mk(ctx, kind, v)
    P = list(o.ports)
    C = rfCircuit(Zbase=v['Z'])
    C.addblock('a', o)
    C.addblock('b', o)
    C.connect('a.' + P[-1], 'b.' + P[0])
    D = rfCircuit(Zbase=Z2)
    D.addblock('n', o)
    f = v['f']
    want = np.array(mk(ctx, kind, v).getS(f, Zbase=Z2))
    C.getS(f)
    ctx.eq('in the other circuit', D.getS(f), want)
    E = rfCircuit(Zbase=v['Z'])
    for n in 'ab':
        E.addblock(n, mk(ctx, kind, v))
    E.connect('a.' + P[-1], 'b.' + P[0])
    C.getS(v['f2'])
    ctx.eq('twice', C.getS(f), E.getS(f))
    ctx.eq('in the other circuit', D.getS(f), want)
    ctx.eq('alone', o.getS(f, Zbase=Z2), want)
    ctx.true('ports', list(o.ports) == P)


def inner(ctx, late, depth):
    """a block replaced inside a circuit used several times: in the one named only"""
    v = values(ctx)
    f, Z, n = v['f'], v['Z'], v['new']
    I = mk(ctx, 'circuit', v)
    if depth > 1:
        J = rfCircuit(Zbase=Z)
        J.addblock('i', I, ports={'a.s': 's', 'b.y': 'y'})
    else:
        J = I
    s, y = ('i.s', 'i.y') if depth > 1 else ('a.s', 'b.y')
    C, D = rfCircuit(Zbase=Z), rfCircuit(Zbase=2 * Z)
    C.addblock('u', J, ports={s: 'x'})
    C.addblock('w', J, ports={s: 'x'})
    D.addblock('u', J, ports={s: 'x'})
    if late:
        C.getS(f), D.getS(f)
    C.addblock('u.i.a' if depth > 1 else 'u.a', rfRLC(Rs=n, Zbase=Z))

    def ref(new):
        R = rfCircuit(Zbase=Z)
        R.addblock('a', rfRLC(Rs=n, Zbase=Z) if new else mk(ctx, 'rlc', v), ports=['s', 'p'])
        R.addblock('b', v['S'], ports=['x', 'y'])
        R.addblock('c', mk(ctx, 'arc', v), ports=['s'])
        R.connect('a.p', 'b.x', 'c.s')
        return R.getS(f)
    A, B = ref(True), ref(False)
    S = C.getS(f)
    i, j = [C.ports.index('u.' + p) for p in ('x', y)], [C.ports.index('w.' + p) for p in ('x', y)]
    ctx.eq('replaced', S[i, :][:, i], A)
    ctx.eq('the other block', S[j, :][:, j], B)
    ctx.eq('the other circuit', D.getS(f, Zbase=Z), B)
    ctx.eq('the object', J.getS(f), B)
    E = rfCircuit(Zbase=Z)
    E.addblock('u', J)
    ctx.eq('used again', E.getS(f), B)


def same(ctx, label, a, b):
    """equal, element by element"""
    ctx.true(label + ': type', type(a) is type(b))
    if isinstance(a, dict):
        ctx.true(label + ': keys', list(a) == list(b))
        for k in a:
            same(ctx, label, a[k], b[k])
    elif isinstance(a, (list, tuple)):
        ctx.true(label + ': size', len(a) == len(b))
        for x, y in zip(a, b):
            same(ctx, label, x, y)
    elif isinstance(a, np.ndarray):
        ctx.true(label + ': shape', a.shape == b.shape)
        ctx.eq(label, a, b)
    elif isinstance(a, str) or a is None:
        ctx.true(label, a == b)
    elif hasattr(a, 'getS'):
        ctx.true(label, a is b)
    else:
        ctx.eq(label, a, b)


def snap(x):
    """a copy of the containers in x"""
    if isinstance(x, dict):
        return {k: snap(e) for k, e in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snap(e) for e in x)
    return np.array(x) if isinstance(x, np.ndarray) else x


def keep(ctx, label, args, fn):
    """fn(*args) leaves the args as they were"""
    old = [snap(x) for x in args]
    fn(*args)
    for x, y in zip(old, args):
        same(ctx, label, y, x)


def arguments(ctx, what, kind=None):
    v = values(ctx)
    Z, f, f2, S, T = (v[k] for k in ('Z', 'f', 'f2', 'S', 'T'))
    Z2 = ctx.real('Z2', 0, s=(10., 90.))
    a = [ctx.cplx('a0'), ctx.cplx('a1')]
    if what == 'conversions':
        keep(ctx, 'ConvertGeneral', ([Z2, Z], [S, T], [Z, Z2]), ConvertGeneral)
        keep(ctx, 'ConvertGeneral', (Z2, np.array([S, T]), Z), ConvertGeneral)
        for fn in (S_from_Z, Z_from_S, S_from_Y, Y_from_S):
            keep(ctx, fn.__name__, (np.array([S, T]), Z), fn)
            keep(ctx, fn.__name__, ([S, T], Z), fn)
            keep(ctx, fn.__name__, (S, Z), fn)
        keep(ctx, 'S_from_VI', (S, Z), S_from_VI)
    elif what == 'frequencies':
        for kind in ('trl', 'rlc', 'arc', 'coupler', 'base', 'table', 'circuit'):
            o = mk(ctx, kind, v)
            keep(ctx, kind, ([f2, f],), o.getS)
            keep(ctx, kind, (np.array([f, f2]), Z2), lambda x, z: o.getS(x, Zbase=z))
    elif what == 'matrices':
        R = np.array(S)
        o = rfObject(R, ports=['s', 'p'], Zbase=Z)
        o.convert2newZbase(Z2)
        o.sortports(['p', 's'])
        ctx.eq('rfObject', R, S)
        R = np.array([S, T])
        F = np.array([f2, f])
        o = rfObject(ports=['s', 'p'], Zbase=Z, interp='RI', interpkws=dict(kind=1))
        o.setS(F, R)
        o.getS(f)
        o.convert2newZbase(Z2)
        o.sortports(['p', 's'])
        ctx.eq('setS', R, np.array([S, T]))
        ctx.eq('setS', F, np.array([f2, f]))
        R, F = [np.array(S), np.array(T)], [f, f2]
        o = rfBase(Ss=R, fs=F, Zbase=Z)
        o.getS(f, Zbase=Z2)
        ctx.eq('rfBase', np.array(R), np.array([S, T]))
        ctx.eq('rfBase', np.array(F), np.array([f, f2]))
        R = np.array(S)
        C = rfCircuit(Zbase=Z2)
        C.addblock('a', R)
        C.addblock('b', R)
        C.connect('a.2', 'b.1')
        C.getS(f)
        C.terminate('b.2', Z=20.)
        C.getS(f2)
        ctx.eq('block', R, S)
    elif what == 'results':
        # changing a result does not change the object
        for kind in ('trl', 'rlc', 'base', 'table', 'circuit'):
            o = mk(ctx, kind, v)
            for z in (Z2, v['Z']):
                w = np.array(mk(ctx, kind, v).getS(f, Zbase=z))
                s = o.getS([f, f2], Zbase=z)
                np.array(s)[0, 0, 0] = 7.
                ctx.eq(kind, o.getS(f, Zbase=z), w)
    elif what == 'excitation' and kind != 'circuit':
        o = mk(ctx, kind, dict(v, S=np.array([[.5, .25j], [.125, -.25]]), f=5e7, Z=50.,
                               f2=6e7, T=np.array([[.25, .5j], [.25, -.5]]),
                               R=20., C=1e-11, L=.25, Z0=30.))
        keep(ctx, kind, ({'s': ctx.real('e', 0, s=(.1, 1.)), 'p': .25j},), lambda E: o.maxV(5e7, E))
    elif what == 'excitation':
        C = rfCircuit(Zbase=50.)
        C.addblock('a', np.array([[.5, .25j], [.125, -.25]]))
        C.addblock('b', rfRLC(Rs=20., Zbase=30.))
        C.connect('a.2', 'b.s')
        E = {'a.1': ctx.real('e', 0, s=(.1, 1.)), 'b.p': .5}
        keep(ctx, 'circuit', (E, ['a.1']), lambda E, n: C.Solution(5e7, E, nodes=n))
        E = {'a.1': .25 + .5j, 'b.p': .5}
        keep(ctx, 'circuit', (E,), lambda E: C.maxV(5e7, E))
    elif what == 'params':
        o = mk(ctx, 'rlc', v)
        keep(ctx, 'rlc', ({'Rs': Z2},), lambda p: o.getS(f, params=p))
        t = mk(ctx, 'trl', v)
        keep(ctx, 'trl', ({'L': v['L'] * 2},), lambda p: t.getS(f, params=p))
        C = mk(ctx, 'nested', v)
        keep(ctx, 'circuit', ({'I': {'a.Rs': Z2}, 'r': {'Rs': Z}},),
             lambda p: C.getS(f, params=p))
        keep(ctx, 'set', ({'I.a.Rs': Z2 / 2},), lambda p: C.set(p))
        R = rfRLC(Rs=v['R'], Zbase=Z)
        D = rfCircuit(Zbase=Z)
        P = {'Rs': Z2}
        D.addblock('r', R, params=P)
        D.getS(f)
        D.getS([f, f2])
        same(ctx, 'block params', P, {'Rs': Z2})
    elif what == 'maps':
        C = rfCircuit(Zbase=Z)
        keep(ctx, 'addblock dict', ('a', mk(ctx, 'rlc', v), {'s': 'x', 'p': 'y'}), C.addblock)
        keep(ctx, 'addblock list', ('b', np.array(S), ['u', 'v']), C.addblock)
        keep(ctx, 'addblock position', ('c', mk(ctx, 'arc', v), {'s': 't'}, {}),
             lambda n, o, p, q: C.addblock(n, o, ports=p, params=q, relpos=1.))
        C.connect('a.y', 'b.u', 'c.t')
        C.getS(f)
        N = ['b.v', 'a.x']
        D = rfCircuit(Zbase=Z, Portnames=N)
        D.addblock('a', mk(ctx, 'rlc', v), ports={'s': 'x', 'p': 'y'})
        D.addblock('b', np.array(S), ports=['u', 'v'])
        D.connect('a.y', 'b.u')
        s = D.getS(f)
        ctx.true('Portnames', N == ['b.v', 'a.x'])
        D.terminate('b.v', Z=5.)
        D.getS(f)
        ctx.true('Portnames', N == ['b.v', 'a.x'])
    elif what == 'shared map':
        # the same map for several blocks
        M = {'s': 'x'}
        C, D = rfCircuit(Zbase=Z), rfCircuit(Zbase=Z)
        for n in 'ab':
            C.addblock(n, mk(ctx, 'rlc', v), ports=M)
            D.addblock(n, mk(ctx, 'rlc', v), ports={'s': 'x'})
        for X in (C, D):
            X.connect('a.p', 'b.x')
        ctx.true('ports', C.ports == D.ports and 'b.p' in C.ports)
        ctx.eq('S', C.getS(f), D.getS(f))
    elif what == 'deembed':
        o = mk(ctx, 'table', v)
        keep(ctx, 'pair', ({'s': (v['L'], Z)},), o.deembed)
        o = mk(ctx, 'table', v)
        keep(ctx, 'dict', ({'s': {'L': v['L'], 'Z0TL': Z, 'dx': 300.},
                              'p': v['L']},), o.deembed)


def cases(tier):
    out = []
    cps = list(COPY)
    i = 0
    for kind, ways in KINDS.items():
        for how in ways:
            for late in (0, 1, 2):
                for side in ('copy', 'original'):
                    i += 1
                    if late == 2 and how in ('ports', 'params'):
                        continue
                    for k, cp in enumerate(cps):
                        if tier == 'quick' and k != i % 3:
                            continue
                        out.append(('%s %s %s %d %s' % (kind, how, cp, late, side), 'independent',
                                    dict(kw=dict(kind=kind, how=how, cp=cp, late=late,
                                                 side=side))))
    for kind in ('trl', 'rlc', 'base', 'object', 'table', 'circuit'):
        out.append(('shared ' + kind, 'shared', dict(kw=dict(kind=kind))))
    for n in (0, 1):
        for d in (1, 2):
            out.append(('inner %d %d' % (n, d), 'inner', dict(kw=dict(late=n, depth=d))))
    for w in ('conversions', 'frequencies', 'matrices', 'results', 'params', 'maps',
              'shared map', 'deembed'):
        out.append(('arguments ' + w, 'arguments', dict(kw=dict(what=w))))
    for kind in ('trl', 'rlc', 'base', 'circuit'):
        out.append(('arguments excitation ' + kind, 'arguments',
                    dict(kw=dict(what='excitation', kind=kind))))
    return out
