"""rfCoupler: the coupler is the coupled line section it claims to be"""
import numpy as np
from pyRFtk import rfCoupler
from hxutil import *

META = dict(
    bounds='one coupler per way of giving coupling and length; coupling, length, '
           'frequencies and reference impedance symbolic; up to 2 frequencies',
    assumptions=['coupling 0 < k < 1, f > 0, length up to 1 m'])


def make(ctx, how, **kw):
    """(coupler, coupling, f -> electrical length)"""
    c, l = how.split()
    if c == 'kc':
        k = ctx.real('k', 0, 1, s=(.2, .9))
        ctx.assume(k < 1)
        kw['kc'] = k
    elif c == 'kcdB':
        d = ctx.real('dB', 0, 60, s=(1., 20.))
        kw['kcdB'] = d
        k = 10 ** (-d / 20)
    elif c == '-kcdB':
        d = ctx.real('dB', 0, 60, s=(1., 20.))
        kw['kcdB'] = -d
        k = 10 ** (-d / 20)
    else:
        k = np.sqrt(.5)
    if l == 'Lc':
        L = ctx.real('L', 0, 1, s=(.1, 1.))
        kw['Lc'] = L
        th = lambda f: 2 * np.pi * f * L / C0
    elif l == 'f0':
        f0 = ctx.real('fc', 0, s=(2e7, 6e7))
        kw['f0Hz'] = f0
        th = lambda f: np.pi / 2 * f / f0
    else:
        th = lambda f: np.pi / 2
    return rfCoupler(**kw), k, th


def modes(ctx, label, S, k, th, Z, Zr):
    """excited in phase (in opposition) the strips are lines of impedance
    Z sqrt((1 + k)/(1 - k))  (its inverse)"""
    c, s = np.cos(th), np.sin(th)
    for sg in (1, -1):
        Zc = Z * np.sqrt((1 + sg * k) / (1 - sg * k))
        for V2, I2 in ((1., 0.), (0., 1 / Zr)):
            V1 = c * V2 + 1j * Zc * s * I2
            I1 = 1j * s / Zc * V2 + c * I2
            a1, b1 = waves_of(V1, I1, Zr)
            a2, b2 = waves_of(V2, -I2, Zr)
            ctx.eq(label, S @ np.array([a1, a2, sg * a1, sg * a2]),
                   np.array([b1, b2, sg * b1, sg * b2]))


def coupler(ctx, how):
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    obj, k, th = make(ctx, how, Zbase=Z)
    S = obj.getS(f)
    ctx.true('shape', np.shape(S) == (4, 4))
    modes(ctx, 'coupled lines', S, k, th(f), Z, Z)
    ctx.eq('reciprocal', S, S.T)
    ctx.eq('lossless', np.conj(S.T) @ S, np.eye(4))
    ctx.eq('matched', np.array([S[i, i] for i in range(4)]), np.zeros(4))
    ctx.eq('isolated', np.array([S[0, 3], S[1, 2]]), np.zeros(2))
    ctx.true('ports', list(obj.ports) == ['A1', 'A2', 'B1', 'B2'])


def reference(ctx):
    Z = ctx.real('Z', 0, s=(10., 90.))
    Zr = ctx.real('Zr', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    k = ctx.real('k', 0, 1, s=(.2, .9))
    ctx.assume(k < 1)
    S = rfCoupler(Zbase=Z, kc=k).getS(f, Zbase=Zr)
    # at the centre frequency the lines are inverters
    modes(ctx, 'reference impedance', S, k, np.pi / 2, Z, Zr)


def centre(ctx, how):
    """at the centre frequency the coupling is k, in quadrature"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    obj, k, th = make(ctx, how, Zbase=Z)
    f0 = obj.f0Hz if how.split()[1] != '-' else ctx.real('f', 0, s=(2e7, 6e7))
    S = obj.getS(f0)
    ctx.eq('coupled port', S[2, 0], k)
    ctx.eq('through port', S[1, 0], -1j * np.sqrt(1 - k * k))
    ctx.eq('coupling attribute', obj.kc, k)
    if how.split()[1] != '-':
        ctx.eq('quarter wave', obj.Lc * obj.f0Hz * 4, C0)


def several(ctx, how):
    Z = ctx.real('Z', 0, s=(10., 90.))
    obj, k, th = make(ctx, how, Zbase=Z)
    f = [ctx.real('f%d' % i, 0, s=(2e7, 6e7)) for i in (0, 1)]
    Ss = obj.getS([f[0], f[1], f[0]])
    ctx.true('one matrix per frequency', len(Ss) == 3)
    for i in range(3):
        modes(ctx, 'frequency %d' % i, Ss[i], k, th(f[i % 2]), Z, Z)


def basics(ctx):
    k = ctx.real('k', 0, 1, s=(.2, .9))
    ctx.assume(k < 1)
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z = ctx.real('Z', 0, s=(10., 90.))
    o = rfCoupler(ports=['p', 'q', 'r', 's'], Zbase=Z, kc=k)
    ctx.true('own ports', list(o.ports) == ['p', 'q', 'r', 's'] and len(o) == 4)
    ctx.eq('port names do not matter', o.getS(f), rfCoupler(Zbase=Z, kc=k).getS(f))
    ctx.eq('default Zbase is 50', rfCoupler(kc=k).getS(f, Zbase=Z),
           rfCoupler(kc=k, Zbase=50.).getS(f, Zbase=Z))
    ctx.raises('four ports', ValueError, rfCoupler, ports=['1', '2', '3'])
    ctx.raises('kc and kcdB', ValueError, rfCoupler, kc=k, kcdB=3.)
    ctx.raises('Lc and f0Hz', ValueError, rfCoupler, Lc=k, f0Hz=f)


def cases(tier):
    out = []
    for c in ('kc', 'kcdB', '-kcdB', '-'):
        for l in ('Lc', 'f0', '-'):
            out.append(('coupler %s %s' % (c, l), 'coupler', dict(kw=dict(how=c + ' ' + l))))
            out.append(('centre %s %s' % (c, l), 'centre', dict(kw=dict(how=c + ' ' + l))))
    for how in ('kc Lc', 'kc f0', 'kc -'):
        out.append(('several ' + how, 'several', dict(kw=dict(how=how))))
    out.append(('reference', 'reference', {}))
    out.append(('basics', 'basics', {}))
    return out
