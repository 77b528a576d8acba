"""rfArcObj: an arc is an inductance to ground"""
import numpy as np
from pyRFtk import rfArcObj, rfCircuit
from hxutil import *

META = dict(
    bounds='one 1-port; inductance, frequencies, reference impedances symbolic; alone and '
           'inside a circuit with a 2-port of arbitrary S; up to 2 frequencies')


def make(ctx, how, **kw):
    L = ctx.real('L', 0, s=(1e-8, 4e-7))
    if how == 'arg':
        return rfArcObj(L, **kw), L
    if how == 'kw':
        return rfArcObj(Larc=L, **kw), L
    if how == 'both':
        return rfArcObj(ctx.real('L2', 0, s=(1e-8, 4e-7)), Larc=L, **kw), L
    o = rfArcObj(**kw)
    if how == 'set after getS':
        o.getS(ctx.real('f_', 0, s=(2e7, 6e7)))
    ctx.true('set reports the change', o.set(Larc=L))
    ctx.true('nothing changes', o.set(Larc=L) == False)
    return o, L


def arc(ctx, how):
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    o, L = make(ctx, how, Zbase=Z)
    S = o.getS(f)
    ctx.true('one port', np.shape(S) == (1, 1) and len(o) == 1)
    w = 2 * np.pi * f
    # V = jwL I
    ctx.eq('inductance', (1 + S[0, 0]) * Z, 1j * w * L * (1 - S[0, 0]))
    ctx.eq('lossless', np.abs(S[0, 0]), 1.)
    Z2 = ctx.real('Z2', 0, s=(10., 90.))
    S2 = o.getS(f, Zbase=Z2)
    ctx.eq('reference impedance', (1 + S2[0, 0]) * Z2, 1j * w * L * (1 - S2[0, 0]))
    f2 = ctx.real('f2', 0, s=(2e7, 6e7))
    Ss = o.getS([f, f2], Zbase=Z2)
    ctx.eq('frequency 0', Ss[0], S2)
    ctx.eq('frequency 1', (1 + Ss[1][0, 0]) * Z2,
           2j * np.pi * f2 * L * (1 - Ss[1][0, 0]))


def dc(ctx, how):
    """at zero frequency the arc is a short circuit"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    o, L = make(ctx, how, Zbase=Z)
    f = ctx.real('f', 0, s=(2e7, 6e7))
    ctx.eq('short', o.getS(0.), np.array([[-1.]]))
    ctx.eq('short', o.getS(0, Zbase=2 * Z), np.array([[-1.]]))
    S = o.getS([0., f, 0])
    ctx.eq('short', S[0], np.array([[-1.]]))
    ctx.eq('short', S[2], np.array([[-1.]]))
    ctx.eq('arc', S[1], o.getS(f))
    C = rfCircuit(Zbase=Z)
    C.addblock('arc', o, ports=['n'])
    M = ctx.cmat('M', 2)
    C.addblock('m', M, ports=['a', 'b'])
    C.connect('arc.n', 'm.b')
    ctx.assume(np.abs(1 + M[1, 1]) != 0)
    ctx.eq('shorted', C.getS(0.)[0, 0] * (1 + M[1, 1]),
           M[0, 0] * (1 + M[1, 1]) - M[0, 1] * M[1, 0])


def none(ctx):
    """without inductance there is no arc"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    o = rfArcObj(Zbase=Z)
    ctx.eq('open', o.getS(f), np.array([[1.]]))
    ctx.eq('open', o.getS(f, Zbase=2 * Z), np.array([[1.]]))
    L = ctx.real('L', 0, s=(1e-8, 4e-7))
    o.set(Larc=L)
    ctx.eq('arc', (1 + o.getS(f)[0, 0]) * Z, 2j * np.pi * f * L * (1 - o.getS(f)[0, 0]))
    ctx.raises('unknown attribute', ValueError, o.set, L=L)


def maxv(ctx):
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    L = ctx.real('L', 0, s=(1e-8, 4e-7))
    a = ctx.cplx('a')
    o = rfArcObj(L, ports=['x'], Zbase=Z)
    V, where, VSW = o.maxV(f, dict(x=a))
    # a source with impedance Z drives the inductance
    jwL = 2j * np.pi * f * L
    ctx.eq('voltage', V, np.abs(2 * a * jwL / (jwL + Z)))
    ctx.true('where', where == 'x')


def embedded(ctx, ports):
    """a circuit with an arc at one node"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    Zo = ctx.real('Zo', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    L = ctx.real('L', 0, s=(1e-8, 4e-7))
    o = rfArcObj(L, Zbase=Zo, **(dict(ports=['x']) if ports else {}))
    C = rfCircuit(Zbase=Z)
    C.addblock('arc', o, ports=['n'])
    C.connect('arc.n', 'in')
    S = C.getS(f)
    ctx.eq('inductance', (1 + S[0, 0]) * Z, 2j * np.pi * f * L * (1 - S[0, 0]))
    a = ctx.cplx('a')
    V, where, _ = C.maxV(f, {'in': a})
    ctx.eq('voltage', V, np.abs(2 * a * 2j * np.pi * f * L / (2j * np.pi * f * L + Z)))
    L2 = ctx.real('L2', 0, s=(1e-8, 4e-7))
    C.set('arc.Larc', L2)
    S = C.getS(f)
    ctx.eq('changed', (1 + S[0, 0]) * Z, 2j * np.pi * f * L2 * (1 - S[0, 0]))


def cases(tier):
    out = [('arc ' + h, 'arc', dict(kw=dict(how=h)))
           for h in ('arg', 'kw', 'both', 'set', 'set after getS')]
    for h in ('arg', 'set', 'set after getS'):
        out.append(('zero frequency ' + h, 'dc', dict(kw=dict(how=h))))
    out.append(('none', 'none', {}))
    out.append(('maxV', 'maxv', {}))
    for p in (0, 1):
        out.append(('embedded %d' % p, 'embedded', dict(kw=dict(ports=p))))
    return out
