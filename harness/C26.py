"""diagnostics (setLogLevel) do not change any result"""
import logging
import os
import tempfile
import numpy as np
import pyRFtk
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL, rfObject, rfCoupler, rfArcObj, rfGTL
from pyRFtk import ConvertGeneral, ReadTSF, WriteTSF, maxfun, setLogLevel, strVSW, scaleVSW
from pyRFtk.config import tLogger, logit
from engine.text import valtoken
from hxutil import *

META = dict(
    bounds='the operations of every class and of the reading and writing functions, in circuits '
           'nested up to 3 levels, each done without and with diagnostics; all values, '
           'matrices, frequencies and impedances symbolic',
    assumptions=['the circuit equations are non singular',
                 'the text of the diagnostics themselves is not looked at'])

# the printed matrices are not looked at
rfCircuit.getS.__globals__['strM'] = lambda M, *a, **kw: '[%d,%d]\n' % np.shape(M)
tLogger.propagate = False
tLogger.addHandler(logging.NullHandler())


def flat(x, label=''):
    """[(label, number or text)] of a result"""
    if isinstance(x, dict):
        return [(label, 'dict of %s' % ' '.join(map(str, x)))] + \
            [r for k in x for r in flat(x[k], label + '.' + str(k))]
    if isinstance(x, (list, tuple)):
        return [(label, '%s of %d' % (type(x).__name__, len(x)))] + \
            [r for i, e in enumerate(x) for r in flat(e, '%s[%d]' % (label, i))]
    if isinstance(x, np.ndarray):
        return [(label, 'array %s' % (x.shape,)), (label, x)]
    return [(label, x)]


def both(ctx, fn):
    """fn(log) with and without diagnostics; log(label, result)"""
    out = []
    for level in ('CRITICAL', 'DEBUG'):
        res = []

        def log(label, value):
            res.append((label, value))

        def refused(label, f, *args, **kw):
            try:
                f(*args, **kw)
            except (ValueError, TypeError, KeyError, IndexError) as e:
                res.append((label, type(e).__name__))
            else:
                res.append((label, 'accepted'))
        log.refused = refused
        setLogLevel(level)
        try:
            fn(log)
        finally:
            setLogLevel('CRITICAL')
        out.append(res)
    ctx.true('steps', [a for a, b in out[0]] == [a for a, b in out[1]])
    for (label, a), (_, b) in zip(*out):
        A, B = flat(a, label), flat(b, label)
        ctx.true('the form of ' + label, [k for k, v in A] == [k for k, v in B])
        for (k, u), (_, v) in zip(A, B):
            if isinstance(u, str) or u is None or isinstance(u, bool):
                ctx.true(k, u == v)
            else:
                ctx.eq(k, v, u)


def values(ctx):
    f = ctx.real('f', 1e6, s=(2e7, 6e7))
    Z = ctx.real('Z', 1, s=(10., 90.))
    return dict(f=f, f2=f + ctx.real('df', 0, s=(1e6, 1e7)), Z=Z, Z2=Z + ctx.real('dZ', 1, s=(1., 20.)),
                R=ctx.real('R', 0, s=(1., 50.)),
                C=ctx.real('C', 0, s=(1e-11, 1e-10)), Ls=ctx.real('Ls', 0, s=(1e-8, 4e-7)),
                S=ctx.cmat('S', 2), T=ctx.cmat('T', 2), n=ctx.real('n', 0, 100., s=(5., 40.)))


def blocks(ctx, what):
    v = values(ctx)
    f, f2, Z, Z2, S, T = (v[k] for k in ('f', 'f2', 'Z', 'Z2', 'S', 'T'))
    P = ['s', 'p']

    def run(log):
        if what == 'rlc':
            o = rfRLC(Rs=v['R'], Cp=v['C'], Zbase=Z, ports=P)
            log('modified', bool(o.set(Rs=v['n'])))
            log.refused('bad', o.set, bad=3.)
        elif what == 'trl':
            o = rfTRL(L=.25, Z0TL=v['R'], dx=300., Zbase=Z, ports=P)
            log('modified', bool(o.set(L=.375)))
            log.refused('bad', o.set, bad=3.)
        elif what == 'arc':
            o = rfArcObj(v['Ls'], Zbase=Z, ports=['s'])
            log('modified', bool(o.set(Larc=v['n'] * 1e-9)))
        elif what == 'coupler':
            o = rfCoupler(kC=.5, Zbase=Z, ports=P + ['u', 'v'])
        elif what == 'base':
            o = rfBase(Ss=[S, T], fs=[f, f2], Zbase=Z, ports=P)
            log.refused('other frequency', o.getS, f / 2)
            log.refused('ports', rfBase, Ss=[S, T], fs=[f, f2], Zbase=Z, ports=['a', 'b', 'c'])
            log.refused('option', rfBase, Ss=[S, T], fs=[f, f2], Zbase=Z, nonsense=3)
            log('lines', len(o.tsf2str(fs=[f, f2]).split('\n')))
        else:
            o = rfObject(ports=P, Zbase=Z, interp='RI', interpkws=dict(kind=1))
            o.setS([f, f2], [S, T])
            log('between', o.getS((f + f2) / 2))
            o.sortports(P[::-1])
            o.convert2newZbase(Z2)
        log('S', o.getS(f))
        log('S at Zbase', o.getS(f2, Zbase=Z2))
        log('S list', o.getS([f2, f], Zbase=Z2))
        if what != 'table':
            c = o.copy()
            log('copy', c.getS(f))
            log('ports', c.ports)
            log('positions', c.xpos)
        log('ports', o.ports)
        log('length', len(o))
    both(ctx, run)


def peaks(ctx, what):
    x = ctx.real('x', -2., 2., s=(-1., 1.))
    S = np.array([[.5, .25j], [.125, -.25]])
    E = {'s': .5 + .25j, 'p': .25}

    def run(log):
        P = ['s', 'p']
        if what == 'trl':
            o = rfTRL(L=.25, Z0TL=30., dx=300., Zbase=50., ports=P, xpos=[x, x + .25],
                      Id='o')
        elif what == 'rlc':
            o = rfRLC(Rs=20., Zbase=50., ports=P, xpos=[x, x], Id='o')
        elif what == 'base':
            o = rfBase(Ss=[S], fs=[5e7], Zbase=50., ports=P, xpos=[x, x + 1.], Id='o')
        else:
            o = rfCircuit(Zbase=50., Id='o')
            sub = rfCircuit(Zbase=30., Id='sub')
            sub.addblock('t', rfRLC(Rs=30., Rp=20.), ports=['a', 'b'], relpos=x)
            sub.addblock('m', S)
            sub.connect('t.b', 'm.1')
            o.addblock('r', rfRLC(Rs=20.), relpos=1.)
            o.addblock('sub', sub, relpos=x)
            o.connect('r.p', 'sub.t.a', 'q')
            o.terminate('q', Z=20.)
            e = {'r.s': .5, 'sub.m.2': .25}
            log('V', o.maxV(5e7, e))
            log('V', o.maxV(5e7, e, xpos=x))
            return
        log('V', o.maxV(5e7, E))
    both(ctx, run)


def circuit(ctx, what):
    v = values(ctx)
    f, f2, Z, Z2, S, T, R, n = (v[k] for k in ('f', 'f2', 'Z', 'Z2', 'S', 'T', 'R', 'n'))

    def make():
        s = rfCircuit(Zbase=Z, Id='s')
        s.addblock('r', rfRLC(Rs=R, Zbase=Z))
        s.addblock('m', S if what != 'set' else np.array([[.25, .5], [.5, .125]]),
                   ports=['x', 'y'])
        s.connect('r.p', 'm.x')
        C = rfCircuit(Zbase=Z, Id='C')
        C.addblock('s', s, ports={'r.s': 'a'})
        C.addblock('c', rfRLC(Rp=30., Zbase=Z2), params={'Rp': 20.}, relpos=1.)
        C.connect('s.m.y', 'c.s', 'q')
        return C

    def run(log):
        C = make()

        def state(label):
            log(label + ' ports', list(C.ports))
            log(label + ' S', C.getS(f))
            log(label + ' positions', list(C.xpos))
            e = {p: .5 - .25j * i for i, p in enumerate(C.ports)}
            log(label + ' solution', C.Solution(f, e))
        if what == 'build':
            C.connect('q', 'w')
            log.refused('block', C.connect, 'w', 'nix.a.b')
            log.refused('map', C.addblock, 'd', rfRLC(Rs=3.), {'nix': 'b'})
            log.refused('array map', C.addblock, 'd', np.array([[.5]]), {'1': 'b'})
            log.refused('block', C.addblock, 'nix.a', rfRLC(Rs=3.))
            log.refused('size', C.addblock, 'c', np.array([[.5]]))
            C.addblock('d', rfArcObj(v['Ls'], Zbase=Z), ports=['e'])
            C.connect('w', 'd.e')
            state('built')
        elif what == 'terminate':
            C.getS(f2)
            C.terminate('q', Z=n)
            state('first')
            C.terminate('q', Y=.125)
            state('again')
            C.terminate('s.a', RC=.5)
            state('last')
            log.refused('what', C.terminate, 'c.p', X=3.)
            log.refused('two', C.terminate, 'c.p', Z=3., Y=2.)
        elif what == 'set':
            log('modified', bool(C.set('s.r.Rs', n)))
            state('s.r.Rs')
            log('same', bool(C.set('s.r.Rs', n)))
            log('modified', bool(C.set(s={'r': {'Rs': n / 2}})))
            state('s={..}')
            log('modified', bool(C.set(('s.r', {'Rs': n / 4}), {'s.r.Rs': n / 3})))
            state('several')
            log.refused('attribute', C.set, 's.r.nix', 3.)
            log.refused('object', C.set, 's.m.Rs', 3.)
            log.refused('block', C.set, 'nix.Rs', 3.)
            log.refused('value', C.set, 'Rs', 3.)
            state('refused')
        elif what == 'get':
            log('list', C.getS([f2, f]))
            log('Zbase', C.getS(f, Zbase=Z2))
            log('Zbase list', C.getS([f, f2], Zbase=Z2))
            log('params', C.getS(f, params={'s': {'r.Rs': n}}))
            state('after')
            log('internal', C.Get_internalSmatrix(f, ['c.s'], Zbase=Z2))
            e = {p: .5 - .25j * i for i, p in enumerate(C.ports)}
            log('nodes', C.Solution(f, e, nodes=['s.r.p', 'c.s', '.m.y']))
            log('Zbase', C.Solution(f, e, Zbase=Z2))
            log.refused('nodes', C.Solution, f, e, nodes=['nix'])
            log('object', C.findObj('s.r').Rs)
            log('none', C.findObj('s.nix'))
            log('where', C.resolve_xpos())
        elif what == 'replace':
            C.getS(f)
            C.addblock('s.r', rfRLC(Rs=n, Zbase=Z))
            state('deep')
            C.addblock('s.m', np.array([[.25, .5], [.5, .125]]))
            state('deep array')
            C.addblock('c', np.array([[.25, .5j], [.5j, .125]]))
            state('array')
            C.addblock('c', rfRLC(), params={'Rp': n})
            state('params')
        elif what == 'copy':
            C.getS(f)
            D = C.copy()
            C.set('s.r.Rs', n)
            C.terminate('q', Z=n)
            state('original')
            log('copy', D.getS(f))
            log('copy ports', D.ports)
        elif what == 'order':
            C = rfCircuit(Zbase=Z, Portnames=['c.p', 's.r.s'])
            s = make().blocks['s']['object']
            C.addblock('s', s)
            C.addblock('c', rfRLC(Rp=30., Zbase=Z2))
            C.connect('s.m.y', 'c.s')
            state('Portnames')
            log.refused('Portnames', rfCircuit, Zbase=Z, nonsense=2)
        elif what == 'sNp':
            C.getS(f)
            t = rfObject(ports=list(C.ports), Zbase=Z2, interp='RI', interpkws=dict(kind=1))
            M = [C.getS(x) for x in (f, f2)]
            t.setS([f, f2], M)
            C.sNp = t
            log('S', C.getS(f2, Zbase=Z))
            log('without', C.getS(f2, flags={'sNp': False}))
    both(ctx, run)


HEAD = '# MHz S RI R 20\n'


def files(ctx, what):
    a = [ctx.real('a%d' % i, s=(-.4, .4)) for i in range(16)]
    f = ctx.real('f', 1, s=(20., 60.))
    F = [f, f + ctx.real('df', 0, s=(1., 9.))]
    S = [np.array([[a[0] + 1j * a[1], a[2] + 1j * a[3]], [a[4] + 1j * a[5], a[6] + 1j * a[7]]]),
         np.array([[a[8] + 1j * a[9], a[10] + 1j * a[11]],
                   [a[12] + 1j * a[13], a[14] + 1j * a[15]]])]
    Z = ctx.real('Z', 1, s=(10., 90.))

    def run(log):
        if what == 'read':
            t = '! Port[1] = in\n! Port[2] = out\n! some comment\n' + HEAD
            for i, g in enumerate(F):
                t += valtoken(g) + ' ' + ' '.join(valtoken(x) for x in a[8 * i:8 * i + 8]) + '\n'
            r = ReadTSF(t)
            for k in ('fs', 'Ss', 'ports', 'Zbase'):
                log(k, r[k])
            r = ReadTSF(t.rsplit('\n', 2)[0] + '\n', Zbase=30., funit='Hz',
                        ports=['a', 'b'])
            for k in ('fs', 'Ss', 'ports', 'Zbase'):
                log(k, r[k])
            log.refused('ports', ReadTSF, t, ports=['a', 'b', 'c'])
            log.refused('option', ReadTSF, t.replace('RI', 'XX'))
            o = rfObject(touchstone=t)
            log('S', o.Ss)
            log('ports', o.ports)
        else:
            o = rfBase(Ss=S, fs=[g * 1e6 for g in F], Zbase=30., ports=['a', 'b'])
            log('S', ReadTSF(o.tsf2str(tfmt='MHz RI R 30'))['Ss'])
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 'x.s2p')
                WriteTSF(o, p, fs=[F[0] * 1e6], tsf_format='MHZ S RI R 30', comments='none')
                log('S', ReadTSF(p)['Ss'])
    both(ctx, run)


def gtl(ctx):
    Z = ctx.real('Z', 1, s=(10., 90.))
    f = ctx.real('f', 1e6, s=(2e7, 6e7))
    n = ctx.real('n', 0, s=(5., 40.))
    model = """{'VTL': {'Portnames': ['in', 'out'], 'variables': {'k': 2.5}, 'GTL': {
        'A': {'ports': ['in', 'T'], 'L': 'L1', 'Z': '2*k', 'dx': 300.},
        'B': {'ports': ['out', 'T'], 'Rs': 'n'},
        'S': {'ports': ['T', '[sc]'], 'Lp': 40., 'Rs': 'k'}}}}"""

    def run(log):
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'x.mod')
            with open(p, 'w') as file:
                file.write(model)
            G = rfGTL(p, objkey='VTL', Zbase=Z, variables=dict(L1=.25, n=n), Id='G')
            log.refused('key', rfGTL, p, objkey='nix', Zbase=Z)
        log('ports', G.ports)
        log('S', G.getS(f))
        log('Zbase', G.getS([f], Zbase=20.))
        log('lines', len(str(G).split('\n')))
    both(ctx, run)


def small(ctx, what):
    v = [ctx.real('v%d' % i, s=(-2., 2.)) for i in range(4)]
    h = ctx.real('h', 0, s=(.1, 1.))

    def run(log):
        if what == 'maxfun':
            log('maximum', maxfun(np.array([v[0], v[0] + h, v[0] + 2 * h]), np.array(v[1:])))
        elif what == 'convert':
            M = np.array([[v[0], v[1]], [v[2], v[3]]])
            log('same', ConvertGeneral(30., M, 30.))
            log('one', ConvertGeneral(30. + h, M, 50.))
            log('per port', ConvertGeneral([30. + h, 20.], M, [50., 40.]))
            log('several', ConvertGeneral([30. + h, 20.], [M, M], 50.))
            log('power', ConvertGeneral(30. + h, M, 50., 'V', 'P'))
        elif what == 'tree':
            t = {'a': ([v[0], v[0] + h], [v[1] + 1j, v[2]]), 'b': {'c': ([v[0]], [v[3]])}}
            log('scaled', scaleVSW(t, h))
            log('lines', len(strVSW(t).split('\n')))
    both(ctx, run)


def cases(tier):
    out = []
    for w in ('rlc', 'trl', 'arc', 'coupler', 'base', 'table'):
        out.append(('block ' + w, 'blocks', dict(kw=dict(what=w))))
    for w in ('rlc', 'base', 'circuit'):
        out.append(('maxV ' + w, 'peaks', dict(kw=dict(what=w))))
    for w in ('build', 'terminate', 'set', 'get', 'replace', 'copy', 'order', 'sNp'):
        out.append(('circuit ' + w, 'circuit', dict(kw=dict(what=w))))
    out.append(('gtl', 'gtl', dict(kw={})))
    for w in ('read', 'write'):
        out.append(('file ' + w, 'files', dict(kw=dict(what=w))))
    for w in ('maxfun', 'convert', 'tree'):
        out.append((w, 'small', dict(kw=dict(what=w))))
    return out
