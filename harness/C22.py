"""rfGTL: a general transmission line model is the circuit its model file describes"""
import os
import shutil
import tempfile
import warnings
import numpy as np
from pyRFtk import rfGTL, rfCircuit, rfTRL, rfRLC, rfArcObj, rfBase
from engine.text import valtoken
from hxutil import *

META = dict(
    bounds='models of up to 5 blocks (lines, stubs, lumped elements, arcs, terminations); '
           'all numbers used by the model symbolic, through variables and expressions',
    assumptions=['lines up to 1 m', 'the circuit of the same blocks made by hand is the '
                 'reference (C03 to C13 decide what that circuit is)'])
warnings.simplefilter('ignore')


def lit(m):
    """the text of a model"""
    if isinstance(m, dict):
        return '{' + ', '.join(repr(k) + ': ' + lit(v) for k, v in m.items()) + '}'
    if isinstance(m, list):
        return '[' + ', '.join(lit(v) for v in m) + ']'
    if isinstance(m, tuple):
        return '(' + ', '.join(lit(v) for v in m) + ')'
    return repr(m) if isinstance(m, (str, int)) else valtoken(m)


def gtl(model, key='VTL', **kw):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 'x.mod')
        with open(p, 'w') as f:
            f.write(lit(model))
        return rfGTL(p, objkey=key, **kw)
    finally:
        shutil.rmtree(d)


def length(ctx, n):
    return ctx.real(n, 0, .3, s=(.05, .3))


def same(ctx, G, C, f, E=None):
    ctx.true('ports', list(G.ports) == list(C.ports))
    S, T = G.getS(f), C.getS(f)
    ctx.eq('S-matrix', S, T)
    Z2 = ctx.real('Z2', 0, s=(10., 90.))
    ctx.eq('reference impedance', G.getS(f, Zbase=Z2), C.getS(f, Zbase=Z2))


def lines(ctx, end):
    """two lines in series, a stub at the junction"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    v = dict(L1=length(ctx, 'L1'), L2=length(ctx, 'L2'), Z1=ctx.real('Z1', 0, s=(10., 90.)),
             L3=length(ctx, 'L3'))
    port = dict(sc='[sc]', oc='[oc]', Z={'Z': 20.}, RC={'RC': .25}, Y={'Y': .02}).get(end)
    g = {'A': {'ports': ['in', 'T'], 'L': 'L1', 'Z': 'Z1', 'dx': 300.},
         'B': {'Portnames': ['out', 'T'], 'length': 'L2 + 0.125', 'Z0TL': '2*Z1', 'dx': 300.}}
    if end:
        g['S'] = {'ports': ['T', port], 'L': 'L3', 'Z': 40., 'dx': 300.}
    G = gtl({'VTL': {'Portnames': ['in', 'out'], 'GTL': g}}, Zbase=Z, variables=v)
    C = rfCircuit(Zbase=Z)
    C.addblock('A', rfTRL(L=v['L1'], Z0TL=v['Z1'], dx=300.), ports=['a', 'b'])
    C.addblock('B', rfTRL(L=v['L2'] + .125, Z0TL=2 * v['Z1'], dx=300.), ports=['a', 'b'])
    C.connect('A.a', 'in')
    C.connect('B.a', 'out')
    if end:
        C.addblock('S', rfTRL(L=v['L3'], Z0TL=40., dx=300.), ports=['a', 'b'])
        C.connect('A.b', 'B.b', 'S.a')
        C.terminate('S.b', **(port if isinstance(port, dict) else
                              {'Z': 0.} if end == 'sc' else {'Y': 0.}))
    else:
        C.connect('A.b', 'B.b')
    same(ctx, G, C, f)


def units(ctx, what):
    """diameters in mm, pF, nH, .."""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    x, y = ctx.real('x', 0, s=(2., 9.)), ctx.real('y', 0, s=(2., 9.))
    v = dict(x=x, y=y)
    if what == 'coax':
        b = {'ports': ['a', 'b'], 'L': .25, 'ID': 'x', 'OD': 'x*2', 'dx': 300.}
        o = rfTRL(L=.25, ID=x * 1e-3, OD=2e-3 * x, dx=300.)
    elif what == 'CL':
        b = {'ports': ['a', 'b'], 'L': .25, 'CTL': 'x', 'LTL': 'y', 'dx': 300.}
        o = rfTRL(L=.25, CTL=x * 1e-12, LTL=y * 1e-9, dx=300.)
    elif what == 'shunt':
        b = {'ports': ['a', 'b'], 'Cp': 'x', 'Rp': 'y'}
        o = rfRLC(Cp=x * 1e-12, Rp=y)
    elif what == 'series':
        b = {'ports': ['a', 'b'], 'Ls': 'x', 'Cs': 'y', 'Rs': 3.}
        o = rfRLC(Ls=x * 1e-9, Cs=y * 1e-12, Rs=3.)
    elif what == 'tank':
        b = {'ports': ['a', 'b'], 'Lp': 'x', 'Cs': 'y'}
        o = rfRLC(Lp=x * 1e-9, Cs=y * 1e-12)
    G = gtl({'VTL': {'Portnames': ['a', 'b'], 'GTL': {'B': b}}}, Zbase=Z, variables=v)
    C = rfCircuit(Zbase=Z)
    C.addblock('B', o, ports=['a', 'b'])
    C.connect('B.a', 'a')
    C.connect('B.b', 'b')
    same(ctx, G, C, f)


def varied(ctx, what, order, form):
    """lines of which the properties vary along the line"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    x = ctx.real('x', 1, s=(200., 300.))
    y = x + ctx.real('dy', 1, s=(50., 300.))
    if order:
        x, y = y, x
    xy = '(x, y)' if order else '[x, y]'
    if form == 'values':
        x, y = xy = (600., 200.) if order else [200., 600.]
    if what == 'LTL':
        b = dict(LTL=xy, CTL=100.)
        kw = dict(LTL=[x * 1e-9, y * 1e-9], CTL=1e-10)
    elif what == 'CTL':
        b = dict(CTL=xy, LTL='x')
        kw = dict(CTL=[x * 1e-12, y * 1e-12], LTL=x * 1e-9)
    else:
        b = dict(Z=xy)
        kw = dict(Z0TL=[x, y])
    G = None
    with Stepper(ctx):
        G = gtl({'VTL': {'Portnames': ['a', 'b'], 'GTL': {
            'B': dict(b, ports=['a', 'b'], L=.25, dx=300.)}}}, Zbase=Z,
            variables=dict(x=x, y=y))
        C = rfCircuit(Zbase=Z)
        C.addblock('B', rfTRL(L=.25, dx=300., **kw), ports=['a', 'b'])
        C.connect('B.a', 'a')
        C.connect('B.b', 'b')
        same(ctx, G, C, f)


def arc(ctx):
    """an arc at a junction"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    v = dict(x=ctx.real('x', 0, s=(2., 90.)), L=length(ctx, 'L'))
    G = gtl({'VTL': {'Portnames': ['a', 'b'], 'GTL': {
        'A': {'ports': ['a', 'T'], 'L': 'L', 'Z': 30., 'dx': 300.},
        'B': {'ports': ['T', 'b'], 'L': .25, 'Z': 20., 'dx': 300.},
        'arc': {'ports': ['T'], 'Larc': 'x'}}}}, Zbase=Z, variables=v)
    C = rfCircuit(Zbase=Z)
    C.addblock('A', rfTRL(L=v['L'], Z0TL=30., dx=300.), ports=['a', 'b'])
    C.addblock('B', rfTRL(L=.25, Z0TL=20., dx=300.), ports=['a', 'b'])
    C.addblock('arc', rfArcObj(v['x'] * 1e-9), ports=['a'])
    C.connect('A.a', 'a')
    C.connect('B.b', 'b')
    C.connect('A.b', 'B.a', 'arc.a')
    same(ctx, G, C, f)


def variables(ctx, order):
    """given variables override those of the model, these those of the line"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    z = ctx.real('z', 0, s=(10., 90.))
    l = length(ctx, 'l')
    loc = [('ZA', '2*ZB'), ('ZB', 'ZC + 5.'), ('ZC', '1*z'), ('w', 11.), ('L', .25)]
    if order:
        loc = loc[::-1]
    glo = [('L', 'l'), ('w', 'ZC + 1')]
    given = dict(z=z, l=l)
    keep = dict(given)
    G = gtl({'variables': dict(glo), 'VTL': {
            'variables': dict(loc), 'Portnames': ['c', 'a'], 'GTL': {
                'A': {'ports': ['a', 'b'], 'L': 'L', 'Z': 'ZA', 'dx': 300.},
                'B': {'ports': ['b', 'c'], 'L': 'L', 'Z': 'w', 'dx': 300.}}}}, Zbase=Z, variables=given)
    ctx.true('the given variables are left alone', list(given) == list(keep) and all(
        given[k] is keep[k] for k in keep))
    C = rfCircuit(Zbase=Z)
    C.addblock('B', rfTRL(L=l, Z0TL=z + 1, dx=300.), ports=['b', 'c'])
    C.addblock('A', rfTRL(L=l, Z0TL=2 * (z + 5.), dx=300.), ports=['a', 'b'])
    C.connect('A.b', 'B.b')
    C.connect('B.c', 'c')
    C.connect('A.a', 'a')
    same(ctx, G, C, f)


def positions(ctx, given):
    """the positions follow from the one(s) given and the lengths"""
    v = dict(L1=length(ctx, 'L1'), L2=length(ctx, 'L2'), L3=length(ctx, 'L3'),
             x0=ctx.real('x0', 0, s=(.5, 3.)))
    rel = dict(given=given)
    x = v['x0']
    L1, L2, L3 = v['L1'], v['L2'], v['L3']
    if given == 'out':
        x = v['x0'] - L1 - L2 + L3
    m = {'Portnames': ['in', 'out', 'end'], 'GTL': {
        'A': {'ports': ['in', 'T'], 'L': 'L1', 'Z': 30., 'dx': 300.},
        'B': {'ports': ['U', 'T'], 'L': 'L3', 'Z': 40., 'dx': 300.},
        'C': {'ports': ['U', 'out'], 'L': 'L2', 'Z': 20., 'dx': 300.},
        'D': {'ports': ['T', 'end'], 'L': .5, 'Z': 20., 'dx': 300.}}}
    if given == 'block':
        m['GTL']['A']['relpos'] = 'x0'
    else:
        m['relpos'] = {given: 'x0'}
    G = gtl({'VTL': m}, variables=v)
    want = {'in': x, 'out': x + L1 - L3 + L2, 'end': x + L1 + .5}
    for p, xp in zip(G.ports, G.xpos):
        ctx.eq('position of ' + p, xp, want[p])
    ctx.true('ports', list(G.ports) == ['in', 'out', 'end'])
    for b, xb in (('A', x), ('B', x + L1 - L3), ('C', x + L1 - L3), ('D', x + L1)):
        ctx.eq('position of ' + b, G.blocks[b]['xpos'], xb)


def touchstone(ctx):
    """with a touchstone the S-matrix is that of the touchstone, on request the model's"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    a, b = ctx.real('a', s=(-.5, .5)), ctx.real('b', s=(-.5, .5))
    c = ctx.real('c', s=(-.5, .5))
    d = tempfile.mkdtemp()
    try:
        with open(os.path.join(d, 'x.s2p'), 'w') as fl:
            fl.write('# MHz S RI R 50\n')
            for k in (40, 50, 60):
                fl.write('%d %s 0 %s 0 %s 0 0 0.25\n' % (k, valtoken(a), valtoken(b),
                                                         valtoken(c)))
        p = os.path.join(d, 'x.mod')
        with open(p, 'w') as fl:
            fl.write(lit({'VTL': {'Portnames': ['in', 'out'], 'sNp': 'x.s2p', 'GTL': {
                'A': {'ports': ['out', 'in'], 'L': 'L', 'Z': 30., 'dx': 300.}}}}))
        L = length(ctx, 'L')
        G = rfGTL(p, objkey='VTL', Zbase=50., variables=dict(L=L))
    finally:
        shutil.rmtree(d)
    S = G.getS(50e6)
    ctx.eq('touchstone', S, np.array([[a, c], [b, .25j]]))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    T = rfTRL(L=L, Z0TL=30., Zbase=50., dx=300.)
    J = np.array([[0., 1.], [1., 0.]])
    ctx.eq('model', G.getSgtl(f), J @ T.getS(f, Zbase=50.) @ J)
    ctx.eq('flag', G.getS(f, flags=dict(sNp=False)), J @ T.getS(f, Zbase=50.) @ J)
    ctx.eq('touchstone again', G.getS(50e6), S)


def inside(ctx, levels, what):
    """a model with a touchstone in a circuit, evaluated in turn with and without it"""
    Z = ctx.real('Z', 0, s=(10., 90.)) if levels == 1 and what == 'S' else 30.
    s = [.125 if what == 'maxV' else ctx.real('s', s=(-.5, .5)), .25, -.375]
    L = .25 if what == 'maxV' else length(ctx, 'L')
    d = tempfile.mkdtemp()
    try:
        with open(os.path.join(d, 'x.s2p'), 'w') as fl:
            fl.write('# MHz S RI R 50\n')
            for k in (40, 50, 60):
                fl.write('%d %s 0 %s 0 %s 0 0 0.25\n' % (k, *[valtoken(x) for x in s]))
        p = os.path.join(d, 'x.mod')
        with open(p, 'w') as fl:
            A, B = ({'Rs': 25.}, {'Rp': 75.}) if what == 'maxV' else (
                {'L': 'L', 'Z': 30., 'dx': 300.}, {'L': .125, 'Z': 20., 'dx': 300.})
            fl.write(lit({'VTL': {'Portnames': ['in', 'out'], 'sNp': 'x.s2p', 'GTL': {
                'A': dict(A, ports=['out', 'T']), 'B': dict(B, ports=['T', 'in'])}}}))
        G = rfGTL(p, objkey='VTL', Zbase=50., variables=dict(L=L))
    finally:
        shutil.rmtree(d)
    f, f2 = 50e6, 60e6
    M = rfCircuit(Zbase=50., Portnames=['B.2', 'A.1'])
    A, B = (rfRLC(Rs=25.), rfRLC(Rp=75.)) if what == 'maxV' else (
        rfTRL(L=L, Z0TL=30., Zbase=50., dx=300.), rfTRL(L=.125, Z0TL=20., Zbase=50., dx=300.))
    M.addblock('A', A, ports=['1', '2'])
    M.addblock('B', B, ports=['1', '2'])
    M.connect('A.2', 'B.1')

    def around(o):
        C = rfCircuit(Zbase=Z)
        C.addblock('G', o, ports=['x', 'y'])
        C.addblock('r', rfRLC(Rs=10., Zbase=Z))
        C.connect('G.x', 'r.s')
        C.terminate('r.p', Z=20.)
        if levels > 1:
            D = rfCircuit(Zbase=50.)
            D.addblock('C', C, ports=['x'])
            return D
        return C
    C, CM = around(G), around(M)
    CT = around(rfBase(Ss=[np.array([[s[0], s[2]], [s[1], .25j]])] * 2, fs=[f, f2], Zbase=50.))
    F = {}
    if what == 'S':
        T, N = {f: CT.getS(f), f2: CT.getS(f2)}, {f: CM.getS(f), f2: CM.getS(f2)}
        for k, (ff, fl) in enumerate([(f, {}), (f, dict(sNp=False)), (f2, {}), (f2, dict(sNp=True)),
                                      (f2, dict(sNp=False)), (f, dict(sNp=False)), (f, {})]):
            ctx.eq('with its touchstone' if fl.get('sNp', True) else 'without',
                   C.getS(ff, flags=fl), (T if fl.get('sNp', True) else N)[ff])
        for v in (True, False, True):
            F['sNp'] = v # the same dict of flags
            ctx.eq('with its touchstone' if v else 'without', C.getS(f, flags=F), (T if v else N)[f])
        return
    p = C.ports[0]
    E = {p: ctx.real('E', 0, s=(1., 9.)) if what == 'maxV' else 1. + .5j}
    if what == 'solution':
        for v in (False, True, False):
            S, S0 = C.Solution(f, E, flags=dict(sNp=v)), (CT if v else CM).Solution(
                f, {CM.ports[0]: E[p]})
            names = [n for n in S0 if n in S and n != p] if v else list(S0)
            pre = 'C.' if levels > 1 else ''
            ctx.true('nodes', pre + 'r.s' in names and (v or pre + 'G.A.2' in names))
            for n in names:
                m = n
                if '.A.' in n or '.B.' in n:
                    # the names in the model
                    m = n[:-1] + {'A1': 'out', 'A2': 'T', 'B1': 'T', 'B2': 'in'}[n[-3] + n[-1]]
                ctx.eq('solution', np.array(S[m]), np.array(S0[n]))
        return
    for v in (False, True):
        _, _, V = C.maxV(f, E, flags=dict(sNp=v))
        _, _, V0 = (CT if v else CM).maxV(f, {CM.ports[0]: E[p]})
        V, V0 = V[C.Id], V0[(CT if v else CM).Id]
        if levels > 1:
            V, V0 = V['C'], V0['C']
        for n in ('G.x', 'G.y', 'r.s', 'r.p'):
            ctx.eq('maxV', V[n][1][0], V0[n][1][0])
        if not v:
            for n, m in (('B.in', 'B.2'), ('A.T', 'A.2')):
                ctx.eq('maxV of the model', V['G'][n][1][0], V0['G'][m][1][0])


def refused(ctx):
    A = {'ports': ['a', 'b'], 'L': .5, 'Z': 30., 'dx': 300.}
    for name, m in (('port not declared', {'Portnames': ['a'], 'GTL': {'A': A}}),
                    ('unknown port', {'Portnames': ['a', 'c'], 'GTL': {'A': A}}),
                    ('no ports', {'Portnames': ['a', 'b'],
                                  'GTL': {'A': {'L': .5, 'Z': 30., 'dx': 300.}}}),
                    ('two names', {'Portnames': ['a', 'b'],
                                   'GTL': {'A': dict(A, Z0TL=20.)}}),
                    ('position of an unknown port',
                     {'Portnames': ['a', 'b'], 'relpos': {'c': 1.}, 'GTL': {'A': A}})):
        ctx.raises(name, ValueError, gtl, {'VTL': m})
    ctx.raises('no such line', KeyError, gtl, {'VTL': {'Portnames': ['a', 'b'],
                                                       'GTL': {'A': A}}}, key='V')


def embedded(ctx, copy):
    """a model inside a circuit; a copy of the model; changed lengths"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    L, L2 = length(ctx, 'L'), length(ctx, 'L2')
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 'x.mod')
        with open(p, 'w') as fl:
            fl.write(lit({'VTL': {'Portnames': ['a', 'b'], 'GTL': {
                'A': {'ports': ['a', 'T'], 'L': 'L', 'Z': 30., 'dx': 300.},
                'B': {'ports': ['T', 'b'], 'L': .25, 'Z': 20., 'dx': 300.}}}}))
        G = rfGTL(p, objkey='VTL', Zbase=Z, variables=dict(L=L))
        if copy:
            G0, G = G, G.copy()
    finally:
        shutil.rmtree(d)
    C = rfCircuit(Zbase=Z)
    C.addblock('G', G, ports=['x', 'y'])
    C.terminate('G.y', Z=30.)

    def ref(l):
        D = rfCircuit(Zbase=Z)
        D.addblock('A', rfTRL(L=l, Z0TL=30., dx=300.), ports=['a', 'b'])
        D.addblock('B', rfTRL(L=.25, Z0TL=20., dx=300.), ports=['a', 'b'])
        D.connect('A.b', 'B.a')
        D.terminate('B.b', Z=30.)
        return D.getS(f)
    ctx.eq('embedded', C.getS(f), ref(L))
    C.set('G.A.L', L2)
    ctx.eq('changed', C.getS(f), ref(L2))
    if copy:
        G0.terminate('b', Z=30.)
        ctx.eq('original', G0.getS(f), ref(L))


def cases(tier):
    out = []

    def add(fn, **kw):
        out.append(('%s %s' % (fn, ' '.join(str(v) for v in kw.values())), fn, dict(kw=kw)))
    for e in ('', 'sc', 'oc', 'Z', 'RC', 'Y'):
        add('lines', end=e)
    for w in ('coax', 'CL', 'shunt', 'series', 'tank'):
        add('units', what=w)
    add('arc')
    for w in ('LTL', 'CTL', 'Z'):
        for o in (0, 1):
            for form in ('values', 'text'):
                add('varied', what=w, order=o, form=form)
    for o in (0, 1):
        add('variables', order=o)
    for g in ('in', 'out', 'block'):
        add('positions', given=g)
    add('touchstone')
    for n in (1, 2):
        for w in ('S', 'solution', 'maxV'):
            add('inside', levels=n, what=w)
    add('refused')
    for c in (0, 1):
        add('embedded', copy=c)
    return out
