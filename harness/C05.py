"""TLresolver: the line parameters are consistent"""
import numpy as np
from pyRFtk import TLresolver, rfTRL
from hxutil import *

META = dict(
    bounds='one resolver per combination of given parameters (listed in the harness), '
           'all values and the angular frequency symbolic; position dependent '
           'parameters with 2 or 3 nodes, position symbolic; every combination also with all or '
           'one of the parameters functions of frequency and position')

MU0 = 1.25663706127e-06
ETA0 = MU0 * C0
EPS0 = 1 / (MU0 * C0 ** 2)

# name: sampling interval (all positive)
RANGE = dict(Z0TL=(10., 90.), LTL=(1e-7, 4e-7), CTL=(4e-11, 2e-10), rTL=(1., 20.),
             rTLI=(1., 9.), rTLO=(1., 9.), gTL=(1e-3, 1e-2), A=(.01, .3), AdB=(.1, 3.),
             rho=(1e-8, 9e-8), rhoI=(1e-8, 9e-8), rhoO=(1e-8, 9e-8), murI=(1., 9.),
             murO=(1., 9.), sigma=(1e-3, 1e-2), tand=(1e-3, 1e-1), epsr=(1., 4.),
             mur=(1., 4.), etar=(.4, 1.), vr=(.4, 1.), qTLI=(1., 9.), qTLO=(1., 9.),
             RsI=(.1, 2.), RsO=(.1, 2.), OD=(.2, .4), ID=(.05, .15), Zbase=(10., 90.))


def given(ctx, names):
    kw = {}
    for n in names:
        if n == 'OD' and 'ID' in names:
            kw['OD'] = kw['ID'] * (1 + ctx.real('q', 0, s=(.2, 1.5)))
        else:
            kw[n] = ctx.real(n, 0, s=RANGE[n])
    return kw


def relations(ctx, R, w, x):
    """every relation between the parameters the resolver has determined"""
    def has(*names):
        return all(hasattr(R, n) for n in names)

    def v(n):
        return getattr(R, n)(w, x)

    def eq(label, a, b, ref=None):
        # ref: a non-zero quantity of the same dimension
        if ref is None:
            ctx.eq(label, a / b, 1.)
        else:
            ctx.eq(label, a / ref, b / ref)

    ctx.true('resolved', has('rjwL', 'gjwC', 'Zc', 'gamma', 'rTL', 'LTL', 'gTL', 'CTL'))
    eq('rjwL = rTL + jw LTL', v('rjwL'), v('rTL') + 1j * w * v('LTL'))
    eq('gjwC = gTL + jw CTL', v('gjwC'), v('gTL') + 1j * w * v('CTL'))
    eq('gamma^2 = rjwL gjwC', v('gamma') ** 2, v('rjwL') * v('gjwC'))
    eq('Zc^2 = rjwL / gjwC', v('Zc') ** 2 * v('gjwC'), v('rjwL'))
    if has('Z0TL'):
        eq('Z0TL^2 = LTL / CTL', v('Z0TL') ** 2 * v('CTL'), v('LTL'))
    if has('vr'):
        eq('vr = 1 / (c0 sqrt(LTL CTL))', v('vr') ** 2 * C0 ** 2 * v('LTL') * v('CTL'), 1.)
    if has('etar', 'mur', 'epsr'):
        eq('etar^2 = mur / epsr', v('etar') ** 2 * v('epsr'), v('mur'))
    if has('vr', 'mur', 'epsr'):
        eq('vr^2 = 1 / (mur epsr)', v('vr') ** 2 * v('mur') * v('epsr'), 1.)
    if has('Z0TL', 'etar', 'OD', 'ID'):
        eq('coaxial impedance', v('Z0TL') * 2 * np.pi,
           v('etar') * ETA0 * np.log(v('OD') / v('ID')))
    if has('sigma', 'gTL', 'OD', 'ID'):
        eq('coaxial conductance', v('gTL') * np.log(v('OD') / v('ID')),
           2 * np.pi * v('sigma'), w * EPS0)
    elif has('sigma', 'gTL', 'Z0TL', 'etar'):
        eq('conductance', v('gTL') * v('Z0TL'), v('sigma') * v('etar') * ETA0, w * EPS0 * ETA0)
    if has('sigma', 'tand', 'epsr'):
        eq('loss tangent', v('sigma'), w * v('epsr') * EPS0 * v('tand'), w * EPS0)
    if has('rTL', 'rTLI', 'rTLO'):
        eq('rTL = rTLI + rTLO', v('rTL'), v('rTLI') + v('rTLO'), w * MU0)
    for c, D in (('I', 'ID'), ('O', 'OD')):
        if has('qTL' + c, D):
            eq('qTL%s = 1/(pi %s)' % (c, D), v('qTL' + c) * np.pi * v(D), 1.)
        if has('rTL' + c, 'Rs' + c, 'qTL' + c):
            eq('rTL%s = Rs%s qTL%s' % (c, c, c), v('rTL' + c), v('Rs' + c) * v('qTL' + c),
               w * MU0)
        if has('Rs' + c, 'rho' + c, 'mur' + c):
            eq('skin effect ' + c, v('Rs' + c) ** 2 * 2,
               w * MU0 * v('mur' + c) * v('rho' + c), ETA0 ** 2)
        if has('rho', 'rho' + c):
            eq('rho' + c, v('rho' + c) * w * MU0, v('rho') * w * MU0, ETA0 ** 2)
    if has('A', 'AdB'):
        # 10^(-AdB/20) = exp(-A)
        eq('dB', v('A') * 20, v('AdB') * np.log(10.), w / C0)
    if has('A'):
        p = v('rjwL') * v('gjwC')
        eq('A is the real part of gamma', (2 * v('A') ** 2 - np.real(p)) ** 2,
           np.real(p * np.conj(p)), (w / C0) ** 4)


def combo(ctx, names, absent=()):
    kw = given(ctx, names)
    R = TLresolver(**kw)
    w = ctx.real('w', 0, s=(1e8, 4e8))
    x = ctx.real('x', 0, s=(0., 1.))
    for n in names:
        if n != 'Zbase':
            ctx.eq('given ' + n, getattr(R, n)(w, x) / kw[n], 1.)
    relations(ctx, R, w, x)
    if 'Zbase' in names:
        ctx.eq('impedance defaults to Zbase', R.Z0TL(w, x) / kw['Zbase'], 1.)
    if not any(n in names for n in ('A', 'AdB', 'rTL', 'rTLI', 'rTLO', 'rho', 'rhoI',
                                    'rhoO', 'RsI', 'RsO')):
        ctx.eq('no conductor loss', R.rTL(w, x), 0.)
    if not any(n in names for n in ('A', 'AdB', 'gTL', 'sigma', 'tand')):
        ctx.eq('no medium loss', R.gTL(w, x), 0.)


def varying(ctx, names, which):
    """parameters given as functions of frequency and position"""
    kw = given(ctx, names)
    w = ctx.real('w', 0, s=(1e8, 4e8))
    x = ctx.real('x', 0, s=(0., 1.))
    x2 = ctx.real('x2', 0, s=(0., 1.))
    fun = {}
    for k, n in enumerate(names):
        b = ctx.real('b' + n, 0, s=(.1, .9))
        if n in which:
            fun[n] = profile(kw[n], b, k % 3 if len(which) > 1 else 0)
        else:
            fun[n] = kw[n]
        if n in which and n == 'Z0TL' and ('ID' in names) != ('OD' in names):
            fun[n] = bounded(kw[n], b)
        if n == 'OD' and 'ID' in names and len(which) > 1: # larger than ID
            fun[n] = larger(fun['ID'], kw['OD'] / kw['ID'], b)
    R = TLresolver(L=1., **fun)
    for n in names:
        ctx.eq('given ' + n, getattr(R, n)(w, x) / value(fun[n], w, x), 1.)
    relations(ctx, R, w, x)
    for n in R.kwset:
        # tells which parameters depend on the position
        if hasattr(R, n) and n in R.kwset and not R.kwset[n]['ddx']:
            ctx.eq('constant ' + n, getattr(R, n)(w, x), getattr(R, n)(w, x2))
    Zb, f = ctx.real('Zb', 0, s=(10., 90.)), ctx.real('f', 0, s=(2e7, 6e7))
    T = rfTRL(L=.5, Zbase=Zb, dx=300., **fun)
    for n in ('rjwL', 'gjwC'):
        if T.constant:
            ctx.eq('uniform ' + n, getattr(T, n)(w, x), getattr(T, n)(w, x2))


def profile(v, b, k):
    if k == 0:
        return lambda x: v * (1 + b * x)
    if k == 1:
        return lambda x, w: v * (1 + b * x + w / 1e8)
    return lambda w, x: v * (2 + b * x * w / 1e8)


def bounded(v, b):
    """also at a frequency taken for a position: it ends up in an exponential"""
    return lambda w, x: v * (1 + b * x / (1 + x) + w / (1e8 + w))


def larger(p, q, b):
    return lambda w, x: value(p, w, x) * (q + b * x)


def value(p, w, x):
    if not callable(p):
        return p
    import inspect
    return p(**{k: v for k, v in (('w', w), ('x', x)) if k in inspect.signature(p).parameters})


def impedance(ctx, names):
    """the S-matrix of the line is that of the resolved line"""
    kw = given(ctx, names)
    f = ctx.real('f', 0, s=(2e7, 6e7))
    L = ctx.real('L', 0, 1, s=(.1, 1.))
    Zb = ctx.real('Zb', 0, s=(10., 90.))
    TL = rfTRL(L=L, Zbase=Zb, dx=300., **kw)
    R = TLresolver(Zbase=Zb, L=L, **kw)
    w = 2 * np.pi * f
    z, y = R.rjwL(w, 0), R.gjwC(w, 0)
    gm = (z * y) ** 0.5
    check_line_S(ctx, 'S', TL.getS(f), gm, z / gm, L, Zb)


def shapes(ctx, how):
    """the forms in which a parameter may be given"""
    L = ctx.real('L', 0, 3, s=(.1, 1.))
    a, b, c = [ctx.real(n, 0, s=(10., 90.)) for n in 'abc']
    t = ctx.real('t', 0, 1, s=(0., 1.))
    x = t * L
    w = ctx.real('w', 0, s=(1e8, 4e8))
    if how == 'scalar':
        val, want, dd = a, a, (False, False)
    elif how == 'list1':
        val, want, dd = [a], a, (False, False)
    elif how == 'list2':
        val, want, dd = [a, b], a + (b - a) * t, (False, True)
    elif how == 'list3':
        val, dd = [a, b, c], (False, True)
        want = a + (b - a) * 2 * t if 2 * t <= 1 else b + (c - b) * (2 * t - 1)
    elif how == 'xy':
        x0 = ctx.real('x0', 0, s=(.05, .3))
        x1 = x0 + ctx.real('x1', 0, s=(.05, .3))
        val, dd = [[x0, x1], [a, b]], (False, True)
        want = a if x <= x0 else (b if x >= x1 else a + (b - a) * (x - x0) / (x1 - x0))
    elif how == 'w':
        val, want, dd = (lambda w: a + b * w), a + b * w, (True, False)
    elif how == 'x':
        val, want, dd = (lambda x: a + b * x), a + b * x, (False, True)
    elif how == 'wx':
        val, want, dd = (lambda w, x: a * w + b * x), a * w + b * x, (True, True)
    elif how == 'xw':
        val, want, dd = (lambda x, w: a * w + b * x), a * w + b * x, (True, True)
    elif how == 'none':
        val, want, dd = (lambda: a), a, (False, False)
    R = TLresolver(L=L, Z0TL=val, vr=.5)
    ctx.eq('value', R.Z0TL(w, x), want)
    ctx.eq('LTL', R.LTL(w, x) * C0 * .5, want)
    ctx.eq('CTL', R.CTL(w, x) * C0 * .5 * want, 1.)
    ctx.eq('rjwL', R.rjwL(w, x) / w * C0 * .5, 1j * want)
    # tells a uniform line from one that varies along its length
    for n in ('Z0TL', 'LTL', 'CTL', 'rjwL', 'gjwC'):
        ctx.true('x dependence of ' + n, bool(R.kwset[n]['ddx']) == dd[1])


def bad(ctx):
    a = ctx.real('a', 0)
    ctx.raises('unknown parameter', ValueError, TLresolver, Zo=a)
    ctx.raises('too many arguments', ValueError, TLresolver, L=1.,
               Z0TL=lambda w, x, y: a)


COMBOS = [
    ('Zbase',), ('Z0TL',), ('Z0TL', 'vr'), ('Z0TL', 'LTL'), ('Z0TL', 'CTL'),
    ('LTL', 'CTL'), ('LTL', 'vr'), ('CTL', 'vr'), ('Z0TL', 'epsr'), ('Z0TL', 'mur'),
    ('Z0TL', 'mur', 'epsr'), ('Z0TL', 'vr', 'epsr'), ('Z0TL', 'vr', 'mur'),
    ('Z0TL', 'etar', 'vr'), ('Z0TL', 'etar', 'mur'), ('Z0TL', 'etar', 'epsr'),
    ('ID', 'OD'), ('ID', 'OD', 'epsr'), ('ID', 'OD', 'mur', 'epsr'), ('ID', 'OD', 'vr'),
    ('ID', 'OD', 'Z0TL'), ('ID', 'OD', 'etar'), ('OD', 'Z0TL'), ('ID', 'Z0TL'),
    ('OD', 'Z0TL', 'epsr'), ('ID', 'Z0TL', 'mur'),
    ('Z0TL', 'rTL'), ('Z0TL', 'rTLI', 'rTLO'), ('LTL', 'CTL', 'rTL', 'gTL'),
    ('Z0TL', 'gTL'), ('Z0TL', 'rTL', 'gTL'), ('Z0TL', 'qTLI', 'RsI', 'qTLO', 'RsO'),
    ('Z0TL', 'rTLI', 'qTLO', 'RsO'), ('Z0TL', 'rTLO', 'qTLI', 'RsI'),
    ('Z0TL', 'rTL', 'rTLO'), ('Z0TL', 'rTL', 'rTLI'),
    ('Z0TL', 'OD', 'rho'), ('ID', 'OD', 'rho'), ('ID', 'OD', 'rhoI', 'rhoO'),
    ('ID', 'OD', 'rho', 'murI'), ('ID', 'OD', 'rho', 'murO'),
    ('ID', 'OD', 'rhoI', 'rhoO', 'murI', 'murO', 'epsr', 'tand'),
    ('Z0TL', 'tand'), ('Z0TL', 'sigma'), ('ID', 'OD', 'sigma'), ('ID', 'OD', 'tand'),
    ('ID', 'OD', 'epsr', 'tand', 'rho'), ('Z0TL', 'epsr', 'sigma'),
    ('Z0TL', 'rTL', 'tand'), ('ID', 'OD', 'tand', 'rTL'), ('ID', 'OD', 'gTL'),
    ('Z0TL', 'qTLI', 'qTLO', 'rho'),
    ('Z0TL', 'A'), ('LTL', 'CTL', 'A'), ('Z0TL', 'AdB'), ('Z0TL', 'A', 'gTL'),
    ('Z0TL', 'A', 'rTL'), ('Z0TL', 'vr', 'A'), ('LTL', 'CTL', 'A', 'sigma'),
    ('Z0TL', 'A', 'tand'), ('ID', 'OD', 'A'), ('ID', 'OD', 'epsr', 'AdB'),
    ('ID', 'OD', 'A', 'rho'),
]


def cases(tier):
    out = []
    for c in COMBOS:
        out.append(('given ' + ' '.join(c), 'combo', dict(kw=dict(names=c))))
        if c != ('Zbase',):
            out.append(('varying ' + ' '.join(c), 'varying', dict(kw=dict(names=c, which=c))))
            for n in c:
                if not (n == 'ID' and 'OD' in c): # ID: stays below OD
                    out.append(('varying %s of %s' % (n, ' '.join(c)), 'varying',
                                dict(kw=dict(names=c, which=(n,)))))
    for h in ('scalar', 'list1', 'list2', 'list3', 'xy', 'w', 'x', 'wx', 'xw', 'none'):
        out.append(('shape ' + h, 'shapes', dict(kw=dict(how=h))))
    for c in (('Z0TL', 'epsr'), ('ID', 'OD', 'rho', 'tand'), ('LTL', 'CTL', 'rTL', 'gTL'),
              ('Z0TL', 'A')):
        out.append(('S ' + ' '.join(c), 'impedance', dict(kw=dict(names=c))))
    out.append(('bad', 'bad', {}))
    return out
