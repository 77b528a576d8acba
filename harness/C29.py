"""elements given by S-matrices; saved and restored objects"""
import copy
import io
import pickle
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfObject, rfCoupler, rfArcObj
from hxutil import *

META = dict(
    bounds='S-matrices of 1 to 3 ports at 1 to 4 frequencies given in every shape, any order of '
           'the frequencies; objects of every class that can be saved and circuits of them '
           'nested up to 2 levels, before and after evaluation and termination; all matrices, '
           'values, frequencies and impedances symbolic',
    assumptions=['different frequencies in a table', 'the circuit equations are non singular'])


class Saver(pickle.Pickler):
    """the classes are kept as they are (the harness runs with two sets of them)"""
    classes = {}

    def persistent_id(self, obj):
        if isinstance(obj, type) or hasattr(obj, 'asreal'): # a class or a symbolic number
            self.classes[id(obj)] = obj
            return id(obj)


class Loader(pickle.Unpickler):
    def persistent_load(self, pid):
        return Saver.classes[pid]


def dumps(o):
    b = io.BytesIO()
    Saver(b, 4).dump(o)
    return b.getvalue()


def loads(t):
    return Loader(io.BytesIO(t)).load()


def freqs(ctx, n):
    r, f = [], 0.
    for i in range(n):
        f = f + ctx.real('f%d' % i, 1e6, s=(1e7, 3e7))
        r.append(f)
    return r


def on(ctx, label, R, S, Z, Zr):
    """R is the network S (on Z) on Zr"""
    N = len(S)
    for k in range(N):
        a = np.array([1. if i == k else .25 * i for i in range(N)])
        b = S @ a
        V, I = a + b, (a - b) / Z
        ctx.eq(label, R @ ((V + Zr * I) / 2), (V - Zr * I) / 2)


def given(ctx, N, n, order, form):
    F = freqs(ctx, n)
    F = [F[i] for i in order]
    S = [ctx.cmat('S%d_' % i, N) for i in range(n)]
    Z, Zr = ctx.real('Z', 1, s=(10., 90.)), ctx.real('Zr', 1, s=(10., 90.))
    kw = dict(Zbase=Z, fs=list(F), ports=['p%d' % i for i in range(N)],
              xpos=[.5 * i for i in range(N)])
    data = {'list': lambda: [x.tolist() for x in S], 'arrays': lambda: list(S),
            'array': lambda: np.array(S), 'matrix': lambda: S[0],
            'values': lambda: [x[0, 0] for x in S], 'value': lambda: S[0][0, 0]}[form]()
    o = rfBase(Ss=data, **kw)
    ctx.true('ports', list(o.ports) == kw['ports'] and len(o) == N)
    ctx.eq('positions', np.array(o.xpos), np.array(kw['xpos']))
    for rep in (0, 1):
        for i in (list(range(n)), list(range(n))[::-1])[rep]:
            ctx.eq('S', o.getS(F[i]), S[i])
            ctx.eq('S', o.get1S(F[i]), S[i])
            on(ctx, 'other impedance', o.getS(F[i], Zbase=Zr), S[i], Z, Zr)
            ctx.eq('same impedance', o.getS(F[i], Zbase=Z), S[i])
    for sel in (list(range(n)), list(range(n))[::-1], [0], [n - 1, 0, 0]):
        ctx.eq('list', np.array(o.getS([F[i] for i in sel])), np.array([S[i] for i in sel]))
        R = o.getS(np.array([F[i] for i in sel]), Zbase=Zr)
        ctx.true('shape', np.array(R).shape == (len(sel), N, N))
        for j, i in enumerate(sel):
            on(ctx, 'list, other impedance', R[j], S[i], Z, Zr)
    ctx.eq('all', np.array(o.getS()), np.array(S))
    R = o.getS(Zbase=Zr)
    for i in range(n):
        on(ctx, 'all, other impedance', R[i], S[i], Z, Zr)
    for g in (F[0] + .5, F[0] + 1., 0.):
        if n > 1:
            ctx.assume(F[0] + 1. < F[1] if order[0] < order[1] else F[1] + 1. < F[0])
        if n > 2:
            continue
        ctx.raises('unknown frequency', ValueError, o.getS, g)
        ctx.raises('unknown frequency', ValueError, o.getS, [F[0], g])
    # a circuit of it
    C = rfCircuit(Zbase=Zr)
    C.addblock('o', o)
    for i in range(n):
        on(ctx, 'in a circuit', C.getS(F[i]), S[i], Z, Zr)
    ctx.eq('S afterwards', np.array(o.getS()), np.array(S))


def defaults(ctx, N, n):
    S = [ctx.cmat('S%d_' % i, N) for i in range(n)]
    o = rfBase(Ss=S)
    ctx.true('ports', list(o.ports) == ['%d' % (i + 1) for i in range(N)])
    ctx.eq('impedance', o.Zbase, 50.)
    ctx.true('number of frequencies', len(o.fs) == n)
    for i in range(n):
        ctx.eq('S', o.getS(float(i)), S[i])
        on(ctx, 'other impedance', o.getS(i, Zbase=20.), S[i], 50., 20.)
    ctx.raises('frequency', ValueError, o.getS, float(n))
    ctx.raises('frequencies', ValueError, rfBase, Ss=S, fs=[1.] * (n + 1))
    ctx.raises('ports', ValueError, rfBase, Ss=S, ports=['a'] * (N + 1))
    ctx.raises('square', ValueError, rfBase, Ss=[[[1., 2.]]])
    ctx.raises('shape', ValueError, rfBase, Ss=[[1., 2.]])
    e = rfBase(ports=['a', 'b'])
    ctx.true('empty', len(e) == 2 and len(e.fs) == 0 and list(e.ports) == ['a', 'b'])
    ctx.raises('empty', ValueError, e.getS, 1.)
    ctx.true('nothing', len(rfBase()) == 0)


def inner(v):
    s = rfCircuit(Zbase=v['Z'], Id='s')
    s.addblock('r', rfRLC(Rs=v['R'], Zbase=v['Z']), relpos=1.)
    s.addblock('m', v['S'], ports=['x', 'y'])
    s.addblock('b', rfArcObj(1e-8, Zbase=v['Z']), ports=['e'])
    s.connect('r.p', 'm.x', 'b.e')
    return s


def outer(v):
    C = rfCircuit(Zbase=v['Z'], Id='C', Portnames=['q', 's.a'])
    C.addblock('s', inner(v), ports={'r.s': 'a'}, relpos=2.)
    C.addblock('c', rfRLC(Rp=30.), params={'Rp': v['R']}, relpos=1.)
    C.connect('s.m.y', 'c.s', 'q')
    C.terminate('c.p', Z=20.)
    return C


def shared(v):
    C = rfCircuit(Zbase=v['Z'], Id='C')
    o = rfRLC(Rs=v['R'], Zbase=v['Z'])
    C.addblock('a', o)
    C.addblock('b', o, ports=['k', 'l'], relpos=.5)
    C.connect('a.p', 'b.k', 'J')
    return C


def tab(v):
    o = rfObject(ports=['s', 'p'], Zbase=v['Z'], interp='RI', interpkws=dict(kind=1))
    o.setS([v['f'], v['f2']], [v['S'], v['T']])
    return o


KINDS = {
    'rlc': lambda v: rfRLC(Rs=v['R'], Ls=1e-9, Zbase=v['Z'], ports=['i', 'o']),
    'arc': lambda v: rfArcObj(v['R'] * 1e-9, Zbase=v['Z'], ports=['e']),
    'coupler': lambda v: rfCoupler(kC=.5, Zbase=v['Z']),
    'base': lambda v: rfBase(Ss=[v['S'], v['T']], fs=[v['f'], v['f2']], Zbase=v['Z'],
                             ports=['i', 'o'], xpos=[1., 3.]),
    'table': tab, 'inner': inner, 'outer': outer, 'shared': shared,
}

CHANGE = {
    'rlc': lambda o, v: o.set(Rs=v['n']), 'arc': lambda o, v: o.set(Larc=v['n'] * 1e-9),
    'inner': lambda o, v: (o.set('r.Rs', v['n']), o.terminate('r.s', Z=v['n'])),
    'outer': lambda o, v: (o.set('s.r.Rs', v['n']), o.set('c.Rp', v['n'])),
    'shared': lambda o, v: (o.set('b.Rs', v['n']), o.terminate('J', Y=.125)),
    'table': lambda o, v: o.setS(v['f'] / 2, v['S'] * .5),
}


def saved(ctx, kind, late):
    f = ctx.real('f', 1e6, s=(2e7, 6e7))
    v = dict(f=f, f2=f + ctx.real('df', 1, s=(1e6, 1e7)), Z=ctx.real('Z', 1, s=(10., 90.)),
             R=ctx.real('R', .5, s=(1., 50.)), S=ctx.cmat('S', 2), T=ctx.cmat('T', 2))
    v['n'] = v['R'] + ctx.real('n', .5, s=(1., 50.))
    o, w = KINDS[kind](v), KINDS[kind](v)
    if late:
        o.getS(v['f2'])
        o.getS(v['f'])
    if late > 1:
        for x in (o, w):
            CHANGE[kind](x, v)
    if late > 2:
        o.getS(v['f'])

    def look(x):
        r = []
        for g, kw in (('f', {}), ('f2', {}), ('f', dict(Zbase=20.))):
            r.append(x.getS(v[g], **kw))
        r += [list(x.ports), np.array(x.xpos), len(x), x.Zbase]
        if hasattr(x, 'blocks'):
            r.append(list(x.listBlocks()))
            s = x.Solution(v['f'], {p: .5 - .25j * i for i, p in enumerate(x.ports)})
            r.append(sorted(s))
            r += [np.array(s[k]) for k in sorted(s)]
        return r

    def same(label, a, b):
        ctx.true(label, len(a) == len(b))
        for x, y in zip(a, b):
            if isinstance(x, (list, int)):
                ctx.true(label, x == y)
            else:
                ctx.eq(label, x, y)
    text = dumps(o)
    p = loads(text)
    want = look(w)
    same('restored', look(p), want)
    same('original', look(o), want)
    if kind in CHANGE and late < 2:
        CHANGE[kind](p, v)
        same('original after the restored one changed', look(o), want)
        CHANGE[kind](w, v)
        same('restored one changed', look(p), look(w))
        q = loads(text)
        same('restored again', look(q), want)
        same('saved again', look(loads(dumps(p))), look(w))
        same('copied', look(copy.deepcopy(q)), want)


def cases(tier):
    out = []
    for N, n, order, forms in ((1, 1, (0,), ('list', 'array', 'values', 'value', 'matrix')),
                               (2, 1, (0,), ('list', 'arrays', 'array', 'matrix')),
                               (1, 2, (1, 0), ('values', 'array')), (2, 2, (0, 1), ('array',)),
                               (2, 2, (1, 0), ('list',)), (2, 3, (1, 2, 0), ('arrays',)),
                               (3, 2, (1, 0), ('array',))) + (
                                   ((2, 4, (3, 1, 0, 2), ('list',)), (3, 3, (2, 0, 1), ('array',)))
                                   if tier != 'quick' else ()):
        for form in forms:
            out.append(('given %d ports %s %s' % (N, ''.join(map(str, order)), form), 'given',
                        dict(kw=dict(N=N, n=n, order=order, form=form))))
    for N in (1, 2, 3):
        for n in (1, 2):
            out.append(('defaults %d %d' % (N, n), 'defaults', dict(kw=dict(N=N, n=n))))
    for k in KINDS:
        for late in (0, 1, 2, 3):
            if late > 1 and k not in CHANGE:
                continue
            out.append(('saved %s %d' % (k, late), 'saved', dict(kw=dict(kind=k, late=late))))
    return out
