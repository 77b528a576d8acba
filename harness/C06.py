"""rfRLC: the scattering matrix is that of the ladder of its elements"""
import itertools
import numpy as np
from pyRFtk import rfRLC
from hxutil import *

META = dict(
    bounds='one object per subset of given elements (all 64), values, frequency and '
           'reference impedance symbolic, f = 0 and f > 0, up to 3 frequencies',
    assumptions=['element values that are given are positive and finite'])

EL = dict(Rs=(1., 90.), Ls=(1e-8, 4e-7), Cs=(1e-11, 4e-10), Rp=(1., 90.), Lp=(1e-8, 4e-7),
          Cp=(1e-11, 4e-10))


def vals(ctx, names, tag=''):
    return {n: ctx.real(n + tag, 0, s=EL[n]) for n in names}


def ladder(ctx, label, S, el, f, Z):
    """V_s - V_p = Zs I_s and I_s + I_p = Yp V_p (scaled to avoid infinities)"""
    w = 2 * np.pi * f
    g = el.get
    zn, zd = g('Rs', 0.) + 1j * w * g('Ls', 0.), 1.     # Zs = zn / zd
    if 'Cs' in el:
        zn, zd = zn * 1j * w * el['Cs'] + 1, 1j * w * el['Cs']
    yn, yd = 1j * w * g('Cp', 0.), 1.
    if 'Rp' in el:
        yn = yn + 1 / el['Rp']
    if 'Lp' in el:
        yn, yd = yn * 1j * w * el['Lp'] + 1, 1j * w * el['Lp']
    for a in ((1., 0.), (0., 1.)):
        b = S @ np.array(a)
        V = [a[i] + b[i] for i in (0, 1)]
        I = [(a[i] - b[i]) / Z for i in (0, 1)]
        ctx.eq(label + ': series branch', (V[0] - V[1]) * zd, zn * I[0])
        ctx.eq(label + ': shunt branch', (I[0] + I[1]) * yd * Z, yn * V[1] * Z)


def single(ctx, names, dc):
    Z = ctx.real('Z', 0, s=(10., 90.))
    el = vals(ctx, names)
    f = 0. if dc else ctx.real('f', 0, s=(2e7, 6e7))
    obj = rfRLC(Zbase=Z, **el)
    S = obj.getS(f)
    ctx.true('shape', np.shape(S) == (2, 2))
    ladder(ctx, 'ladder', S, el, f, Z)
    ctx.eq('reciprocal', S[0, 1], S[1, 0])
    if not any(n in names for n in ('Rs', 'Rp')) and len(names) < 5:
        ctx.eq('lossless', np.conj(S.T) @ S, np.eye(2))
    Z2 = ctx.real('Z2', 0, s=(10., 90.))
    ladder(ctx, 'reference impedance', obj.getS(f, Zbase=Z2), el, f, Z2)
    ctx.eq('again', obj.getS(f), S)


def several(ctx, names):
    Z = ctx.real('Z', 0, s=(10., 90.))
    el = vals(ctx, names)
    f = [ctx.real('f%d' % k, 0, s=(2e7, 6e7)) for k in range(2)]
    obj = rfRLC(Zbase=Z, **el)
    fs = [f[0], 0., f[1]]
    Ss = obj.getS(fs)
    ctx.true('one matrix per frequency', len(Ss) == 3)
    for k in range(3):
        ladder(ctx, 'frequency %d' % k, Ss[k], el, fs[k], Z)
    Z2 = ctx.real('Z2', 0, s=(10., 90.))
    Ss = obj.getS(np.array(fs), Z2)
    for k in range(3):
        ladder(ctx, 'frequency %d' % k, Ss[k], el, fs[k], Z2)


def changing(ctx, how, a, b):
    """changed element values count from then on, others stay"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    el = vals(ctx, a)
    new = vals(ctx, b, 'new')
    f = ctx.real('f', 0, s=(2e7, 6e7))
    obj = rfRLC(Zbase=Z, **el)
    ladder(ctx, 'before', obj.getS(f), el, f, Z)
    both = dict(el, **new)
    if how == 'params':
        p = dict(new)
        ladder(ctx, 'params', obj.getS(f, params=p), both, f, Z)
        ctx.true('params untouched', sorted(p) == sorted(new))
        other = rfRLC(Zbase=Z, **el)
        ladder(ctx, 'same params on another object', other.getS(f, params=p), both, f, Z)
        ladder(ctx, 'an object without params', rfRLC(Zbase=Z, **el).getS(f), el, f, Z)
    else:
        m = obj.set(**new)
        ctx.true('set reports the change', m == any(
            (n not in el) or not (el[n] == new[n]) for n in b))
        ladder(ctx, 'set', obj.getS(f), both, f, Z)
        ctx.true('nothing changes', obj.set(**new) == False)
        ladder(ctx, 'set again', obj.getS(f), both, f, Z)
        ladder(ctx, 'a copy', obj.copy().getS(f), both, f, Z)
        ctx.raises('unknown attribute', ValueError, obj.set, Rx=1.)
        ctx.raises('attribute that cannot be set', ValueError, obj.set, Zbase=1.)


def basics(ctx, ports):
    Z = ctx.real('Z', 0, s=(10., 90.))
    el = vals(ctx, ('Rs', 'Lp'))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    obj = rfRLC(Zbase=Z, ports=list(ports), **el)
    ctx.true('ports', list(obj.ports) == list(ports) and len(obj) == 2)
    ladder(ctx, 'the series branch is at the first port', obj.getS(f), el, f, Z)
    ctx.true('default ports', list(rfRLC().ports) == ['s', 'p'])
    ctx.eq('default is a through', rfRLC(Zbase=Z).getS(f), np.array([[0, 1.], [1., 0]]))
    ladder(ctx, 'default Zbase', rfRLC(**el).getS(f), el, f, 50.)
    x = [ctx.real('x%d' % k, s=(-1, 1)) for k in (0, 1)]
    ctx.eq('xpos', np.array(rfRLC(xpos=list(x)).xpos), np.array(x))


def maxv(ctx, base):
    Z = ctx.real('Z', 0, s=(10., 90.))
    el = vals(ctx, ('Rs', 'Cp'))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    obj = rfRLC(Zbase=Z, ports=['x', 'y'], **el)
    a = [ctx.cplx('a0'), ctx.cplx('a1')]
    Zb = Z if base is None else ctx.real('Z2', 0, s=(10., 90.))
    V, where, VSW = obj.maxV(f, dict(x=a[0], y=a[1]), Zbase=(None if base is None else Zb),
                             ID='obj')
    S = rfRLC(Zbase=Zb, **el).getS(f)
    b = S @ np.array(a)
    v = [np.abs(a[k] + b[k]) for k in (0, 1)]
    ctx.eq('voltages', np.array(VSW[1]), np.array(v))
    ctx.le('not below any port', np.array(v), np.array([V, V]))
    k = ['obj.x', 'obj.y'].index(where)
    ctx.eq('value at the location', V, v[k])


def cases(tier):
    out = []
    names = list(EL)
    for n in range(7):
        for c in itertools.combinations(names, n):
            out.append(('ladder ' + '-'.join(c), 'single', dict(kw=dict(names=c, dc=0))))
            out.append(('dc ' + '-'.join(c), 'single', dict(kw=dict(names=c, dc=1))))
    for c in (('Rs',), ('Ls', 'Cp'), ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp')):
        out.append(('several ' + '-'.join(c), 'several', dict(kw=dict(names=c))))
    for how in ('set', 'params'):
        for a, b in ((('Rs', 'Cp'), ('Rs',)), (('Ls',), ('Cp',)), (('Rs', 'Lp'), ('Rp', 'Cs')),
                     (('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'), ('Lp', 'Cs', 'Rs')),
                     ((), ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'))):
            out.append(('%s %s to %s' % (how, '-'.join(a), '-'.join(b)), 'changing',
                        dict(kw=dict(how=how, a=a, b=b))))
    for p in (('s', 'p'), ('p', 's'), ('1', '2')):
        out.append(('basics ' + ' '.join(p), 'basics', dict(kw=dict(ports=p))))
    for b in (None, 1):
        out.append(('maxV %r' % b, 'maxv', dict(kw=dict(base=b))))
    return out
