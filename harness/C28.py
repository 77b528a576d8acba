"""refused operations leave everything as it was"""
import os
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL, rfObject, rfCoupler, rfArcObj
from pyRFtk import ReadTSF
from hxutil import *

META = dict(
    bounds='one refused operation of every kind on a circuit nested up to 2 levels, before and '
           'after its evaluation, and on blocks and tables, followed by valid operations; all '
           'values, matrices, frequencies and impedances symbolic',
    assumptions=['the circuit equations are non singular'])


def values(ctx):
    f = ctx.real('f', 1e6, s=(2e7, 6e7))
    return dict(f=f, f2=f + ctx.real('df', 1, s=(1e6, 1e7)), Z=ctx.real('Z', 1, s=(10., 90.)),
                R=ctx.real('R', 0, s=(1., 50.)), S=ctx.cmat('S', 2), T=ctx.cmat('T', 2),
                n=ctx.real('n', 0, 100., s=(5., 40.)))


def make(v):
    s = rfCircuit(Zbase=v['Z'], Id='s')
    s.addblock('r', rfRLC(Rs=v['R'], Zbase=v['Z']))
    s.addblock('m', v['S'], ports=['x', 'y'])
    s.addblock('b', rfArcObj(1e-8, Zbase=v['Z']), ports=['e'])
    s.connect('r.p', 'm.x', 'b.e')
    C = rfCircuit(Zbase=v['Z'], Id='C')
    C.addblock('s', s, ports={'r.s': 'a'}, relpos=2.)
    C.addblock('c', rfRLC(Rp=30.), params={'Rp': 20.}, relpos=1.)
    C.addblock('u', rfTRL(L=.25, Z0TL=30., dx=300.), relpos=3.)
    C.connect('s.m.y', 'c.s', 'q')
    return C


def nix(*args, **kw):
    raise AssertionError


# name: (operation, errors allowed)
OPS = {
    'connect unknown': lambda C, v: C.connect('c.p', 'nix.a'),
    'connect two new': lambda C, v: C.connect('c.p', 'v', 'w'),
    'connect used': lambda C, v: C.connect('c.p', 'c.s'),
    'connect used first': lambda C, v: C.connect('c.s', 'u.1', 'c.p'),
    'connect new used': lambda C, v: C.connect('c.p', 'c.s', 'w'),
    'connect twice': lambda C, v: C.connect('c.p', 'u.1', 'c.p'),
    'terminate unknown': lambda C, v: C.terminate('nix', Z=v['n']),
    'terminate used': lambda C, v: C.terminate('c.s', Z=v['n']),
    'terminate option': lambda C, v: C.terminate('c.p', X=v['n']),
    'terminate two': lambda C, v: C.terminate('c.p', Z=v['n'], Y=.5),
    'addblock map': lambda C, v: C.addblock('d', rfRLC(Rs=v['n']), {'nix': 'b'}),
    'addblock array map': lambda C, v: C.addblock('d', v['T'], {'1': 'b'}),
    'addblock list': lambda C, v: C.addblock('d', v['T'], ['a']),
    'addblock type': lambda C, v: C.addblock('d', v['T'], 3.),
    'addblock unknown': lambda C, v: C.addblock('nix.d', v['T']),
    'replace size': lambda C, v: C.addblock('c', np.array([[.5]])),
    'replace deep size': lambda C, v: C.addblock('s.r', np.array([[.5]])),
    'set block': lambda C, v: C.set('nix.Rs', v['n']),
    'set deep block': lambda C, v: C.set('s.nix.Rs', v['n']),
    'set attribute': lambda C, v: C.set('c.nix', v['n']),
    'set deep attribute': lambda C, v: C.set('s.r.nix', v['n']),
    'set array': lambda C, v: C.set('s.m.Rs', v['n']),
    'set value': lambda C, v: C.set('c', v['n']),
    'set args': lambda C, v: C.set('c.Rs'),
    'set line': lambda C, v: C.set('u.nix', v['n']),
    'set arc': lambda C, v: C.set('s.b.nix', v['n']),
    'params': lambda C, v: C.getS(v['f'], params={'c': {'nix': v['n']}}),
    'params deep': lambda C, v: C.getS(v['f'], params={'s': {'r.nix': v['n']}}),
    'excitation': lambda C, v: C.Solution(v['f'], {'c.p': .5}),
    'maxV excitation': lambda C, v: C.maxV(v['f'], {'c.p': .5}),
    'deembed internal': lambda C, v: C.deembed({'nix': 'w'}, {}),
    'deembed second': lambda C, v: C.deembed({'u.1': 'w', 'nix': 'z'}, {}),
    'deembed exists': lambda C, v: C.deembed({'u.1': 'c.p'}, {}),
    'deembed external': lambda C, v: C.deembed({}, {'u.1': 'nix'}),
    'deembed external first': lambda C, v: C.deembed({'u.1': 'w'}, {'nix': 'u.2'}),
    'deembed used name': lambda C, v: C.deembed({'u.1': 'c.s'}, {}),
    'deembed twice': lambda C, v: C.deembed({'u.1': 'w', 'c.p': 'w'}, {}),
    'deembed external twice': lambda C, v: C.deembed({}, {'u.1': 'u.1'}),
    'deembed type': lambda C, v: C.deembed(3., {}),
    'position': lambda C, v: C.getpos('c.nix'),
}

# several changes at once: those before the refused one may be kept
# (operation, where it shows, the change)
SEVERAL = {
    'set two': (lambda C, v: C.set(('nix', {'Rs': 3.}), ('s.r', {'Rs': v['n']})),
                's.r.Rs', 'n'),
    'set two attributes': (lambda C, v: C.set('s.r', {'Rs': v['n'], 'nix': 3.}), 's.r.Rs', 'n'),
    'set two in one': (lambda C, v: C.set('c', {'Rs': v['n'], 'nix': 3.}), 'c.Rs', 'n'),
    'set line': (lambda C, v: C.set('u', {'L': v['L'], 'nix': 3.}), 'u.L', 'L'),
    'set arc': (lambda C, v: C.set('s.b', {'Larc': v['A'], 'nix': 3.}), 's.b.Larc', 'A'),
    'params': (lambda C, v: C.getS(v['f'], params={'c': {'Rs': v['n']}, 'u': {'nix': 3.}}),
               'c.Rs', 'n'),
    'params of one': (lambda C, v: C.getS(v['f'], params={'u': {'L': v['L'], 'nix': 3.}}),
                      'u.L', 'L'),
}

ERRORS = (ValueError, TypeError, KeyError, IndexError, AttributeError)
NEXT = {
    'evaluate': lambda C, v: None,
    'connect': lambda C, v: (C.connect('c.p', 'u.1', 'w'), C.terminate('u.2', Z=20.)),
    'terminate': lambda C, v: (C.terminate('c.p', Z=v['n']), C.terminate('q', Y=.125)),
    'set': lambda C, v: (C.set('s.r.Rs', v['n'] * 2), C.set('u.L', .125)),
}


def state(C, v):
    r = [list(C.ports)]
    r += [C.getS(v[f]) for f in ('f', 'f2', 'f')]
    r += [list(C.xpos)]
    e = {p: .5 - .25j * i for i, p in enumerate(C.ports)}
    r += [C.Solution(v['f'], e)]
    return r


def same(ctx, label, a, b):
    ctx.true(label + ' ports', a[0] == b[0])
    for x, y in zip(a[1:4], b[1:4]):
        ctx.eq(label + ' S', x, y)
    ctx.eq(label + ' positions', np.array(a[4]), np.array(b[4]))
    ctx.true(label + ' nodes', sorted(a[5]) == sorted(b[5]))
    for k in b[5]:
        ctx.eq(label + ' at ' + k, np.array(a[5][k]), np.array(b[5][k]))


def attempt(ctx, what, op, C, v):
    try:
        op(C, v)
    except ERRORS:
        return
    ctx.true(what + ' is refused', False)


def circuit(ctx, what, then, late):
    v = values(ctx)
    C, D = make(v), make(v)
    if late:
        if late > 1:
            C.terminate('q', RC=.25), D.terminate('q', RC=.25)
        C.getS(v['f']), D.getS(v['f'])
    attempt(ctx, what, OPS[what], C, v)
    NEXT[then](C, v)
    NEXT[then](D, v)
    same(ctx, what, state(C, v), state(D, v))


def several(ctx, what, late):
    v = values(ctx)
    v['L'] = ctx.real('L', .25, 1., s=(.3, 1.))
    v['A'] = ctx.real('A', 0, s=(2e-8, 9e-8))
    op, where, new = SEVERAL[what]
    C, D = make(v), make(v)
    if late:
        state(C, v)
    attempt(ctx, what, op, C, v)
    ob, attr = where.rsplit('.', 1)
    if getattr(C.findObj(ob), attr) is v[new]:
        D.set(where, v[new])
    same(ctx, what, state(C, v), state(D, v))


def table(v):
    o = rfObject(ports=['s', 'p'], Zbase=v['Z'], interp='RI', interpkws=dict(kind=1))
    o.setS([v['f'], v['f2']], [v['S'], v['T']])
    return o


TABLE = {
    'setS shape': lambda o, v: o.setS(v['f'] / 2, [[.5]]),
    'setS size': lambda o, v: o.setS(v['f'] / 2, np.eye(3)),
    'setS number': lambda o, v: o.setS([v['f'] / 2], [v['S'], v['T']]),
    'setS names': lambda o, v: o.setS(v['f'] / 2, v['T'], Portnames=['a', 'b']),
    'sortports unknown': lambda o, v: o.sortports(['nix', 's']),
    'sortports twice': lambda o, v: o.sortports(['s', 's']),
    'deembed unknown': lambda o, v: o.deembed({'nix': .25}),
    'deembed also unknown': lambda o, v: o.deembed({'s': .25, 'nix': .25}),
    'deembed value': lambda o, v: o.deembed({'p': 'x'}),
    'deembed second value': lambda o, v: o.deembed({'s': .25, 'p': 'x'}),
    'setitem index': lambda o, v: o.__setitem__(2, (v['f'] / 2, v['T'])),
    'setitem size': lambda o, v: o.__setitem__(0, (v['f'] / 2, np.eye(3))),
    'Zbase size': lambda o, v: o.convert2newZbase([3., 4., 5.]),
    'excitation': lambda o, v: o.maxV(v['f'], {'s': 1.}),
    'unit': lambda o, v: o.getS(v['f'], funit='nix'),
}


def tables(ctx, what, late):
    v = values(ctx)
    o, w = table(v), table(v)
    m = (v['f'] + v['f2']) / 2
    if late:
        o.getS(m)
    attempt(ctx, what, TABLE[what], o, v)
    ctx.true('ports', list(o.ports) == list(w.ports))
    ctx.true('number', len(o.fs) == len(w.fs))
    ctx.eq('impedance', o.Zbase, w.Zbase)
    for f in (v['f'], m, v['f2']):
        ctx.eq(what + ': S', o.getS(f), w.getS(f))
        ctx.eq(what + ': S', o.getS(f, Zbase=20.), w.getS(f, Zbase=20.))
    for x in (o, w):
        x.setS(v['f'] / 2, np.array([[.5, .25j], [.125, -.25]]))
    ctx.eq(what + ': S', o.getS(v['f'] * .75), w.getS(v['f'] * .75))


BLOCKS = {
    'rlc': (lambda v: rfRLC(Rs=v['R'], Zbase=v['Z']), [dict(nix=1.), dict(ports=1.)]),
    'trl': (lambda v: rfTRL(L=.25, Z0TL=v['R'], Zbase=v['Z'], dx=300.), [dict(nix=1.)]),
    'arc': (lambda v: rfArcObj(v['R'] * 1e-9, Zbase=v['Z'], ports=['a']),
            [dict(nix=1.), dict(ports=1.)]),
    'base': (lambda v: rfBase(Ss=[v['S'], v['T']], fs=[v['f'], v['f2']], Zbase=v['Z']),
             [dict(nix=1.), dict(ports=1.)]),
    'coupler': (lambda v: rfCoupler(kC=.5, Zbase=v['Z']), [dict(nix=1.)]),
}


def blocks(ctx, kind, late):
    v = values(ctx)
    fn, bad = BLOCKS[kind]
    o, w = fn(v), fn(v)
    if late:
        o.getS(v['f'])
    for b in bad:
        attempt(ctx, 'set', lambda o, v: o.set(**b), o, v)
    attempt(ctx, 'params', lambda o, v: o.getS(v['f'], params=dict(nix=1.)), o, v) \
        if kind == 'trl' else None
    if kind in ('rlc', 'trl'):
        attempt(ctx, 'excitation', lambda o, v: o.maxV(v['f'], {}), o, v)
    if kind == 'base':
        attempt(ctx, 'frequency', lambda o, v: o.getS(v['f'] / 2), o, v)
    ctx.true('ports', list(o.ports) == list(w.ports))
    for f in ('f', 'f2'):
        ctx.eq(kind + ': S', o.getS(v[f]), w.getS(v[f]))
        ctx.eq(kind + ': S', o.getS(v[f], Zbase=20.), w.getS(v[f], Zbase=20.))


def cases(tier):
    out = []
    for w in OPS:
        for late in (0, 1, 2):
            for t in NEXT:
                if late and t == 'connect' or late > 1 and t == 'terminate':
                    continue
                if tier == 'quick' and late and t == 'set':
                    continue
                out.append(('%s, then %s %d' % (w, t, late), 'circuit',
                            dict(kw=dict(what=w, then=t, late=late))))
    for w in SEVERAL:
        for late in (0, 1):
            out.append(('%s and more %d' % (w, late), 'several', dict(kw=dict(what=w, late=late))))
    for w in TABLE:
        for late in (0, 1):
            out.append(('table %s %d' % (w, late), 'tables', dict(kw=dict(what=w, late=late))))
    for w in BLOCKS:
        for late in (0, 1):
            out.append(('block %s %d' % (w, late), 'blocks', dict(kw=dict(kind=w, late=late))))
    return out
