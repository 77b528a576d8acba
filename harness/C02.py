"""ConvertGeneral keeps the port voltages and currents"""
import numpy as np
from pyRFtk import ConvertGeneral

META = dict(bounds='1 to 3 ports, 1 to 3 frequencies, all S entries and the port '
                   'impedances symbolic (real positive for V and P, complex with '
                   'positive real part for G)')


def zport(ctx, name, typ):
    if typ == 'G':
        return ctx.real(name + 'r', 0, s=(0.4, 2.)) + 1j * ctx.real(name + 'x', s=(-1, 1))
    return ctx.real(name, 0, s=(0.4, 2.5))


def zarg(ctx, name, form, nf, n, typ):
    """impedance argument in one of the accepted forms, and Z[k][i]"""
    if form == 'scalar':
        z = zport(ctx, name, typ)
        return z, [[z] * n] * nf
    if form in ('ports', 'portsarray'):
        z = [zport(ctx, '%s%d' % (name, i), typ) for i in range(n)]
        return (z if form == 'ports' else np.array(z)), [z] * nf
    z = [[zport(ctx, '%s%d%d' % (name, k, i), typ) for i in range(n)]
         for k in range(nf)]
    return np.array(z), z


def vi_of(typ, Z, a, b):
    """voltages and currents of waves a, b (scaled by the positive factor)"""
    if typ == 'V':
        return a + b, (a - b) / Z
    if typ == 'P':
        r = np.sqrt(Z)
        return r * (a + b), (a - b) / r
    r = np.sqrt(np.real(Z))
    return (np.conj(Z) * a + Z * b) / r, (a - b) / r


def waves(typ, Z, V, I):
    if typ == 'V':
        return (V + Z * I) / 2, (V - Z * I) / 2
    if typ == 'P':
        r = 2 * np.sqrt(Z)
        return (V + Z * I) / r, (V - Z * I) / r
    r = 2 * np.sqrt(np.real(Z))
    return (V + Z * I) / r, (V - np.conj(Z) * I) / r


def smats(ctx, shape):
    if shape == 'scalar':
        s = ctx.cplx('s')
        return s, [np.array([[s]])]
    if shape[0] == 'vec':
        s = [ctx.cplx('s%d' % k) for k in range(shape[1])]
        return s, [np.array([[x]]) for x in s]
    if shape[0] == '2d':
        S = ctx.cmat('s', shape[1])
        return S, [S]
    Ss = [ctx.cmat('s%d_' % k, shape[2]) for k in range(shape[1])]
    return np.array(Ss), Ss


def result(ctx, shape, R):
    if shape == 'scalar':
        ctx.true('shape', np.ndim(R) == 0)
        return [np.array([[R]])]
    if shape[0] == 'vec':
        ctx.true('shape', np.shape(R) == (shape[1],))
        return [np.array([[x]]) for x in R]
    if shape[0] == '2d':
        ctx.true('shape', np.shape(R) == (shape[1],) * 2)
        return [R]
    ctx.true('shape', np.shape(R) == (shape[1], shape[2], shape[2]))
    return list(R)


def conv(ctx, shape, t1, t2, f1, f2, back=True):
    S1, Ss = smats(ctx, shape)
    nf, n = len(Ss), len(Ss[0])
    z1, Z1 = zarg(ctx, 'u', f1, nf, n, t1)
    z2, Z2 = zarg(ctx, 'w', f2, nf, n, t2)
    R = ConvertGeneral(z2, S1, z1, t1, t2)
    Rs = result(ctx, shape, R)
    for k in range(nf):
        for j in range(n):
            # drive port j of the original with a unit wave
            V, I = [], []
            for i in range(n):
                v, c = vi_of(t1, Z1[k][i], 1. if i == j else 0., Ss[k][i, j])
                V.append(v)
                I.append(c)
            ab = [waves(t2, Z2[k][i], V[i], I[i]) for i in range(n)]
            a = np.array([x[0] for x in ab])
            b = np.array([x[1] for x in ab])
            ctx.eq('same voltages and currents', Rs[k] @ a, b, scale=1.)
    if back:
        B = ConvertGeneral(z1, R, z2, t2, t1)
        for k, M in enumerate(result(ctx, shape, B)):
            ctx.eq('round trip', M, Ss[k])


def chain(ctx, n):
    """converting in two steps is converting at once"""
    S = ctx.cmat('s', n)
    z = [ctx.real('z%d' % i, 0, s=(0.4, 2.5)) for i in range(3)]
    A = ConvertGeneral(z[2], ConvertGeneral(z[1], S, z[0]), z[1])
    ctx.eq('two steps', A, ConvertGeneral(z[2], S, z[0]))
    ctx.eq('identity', ConvertGeneral(z[0], S, z[0]), S)
    ctx.eq('default types are voltage waves', ConvertGeneral(z[1], S, z[0]),
           ConvertGeneral(z[1], S, z[0], 'V', 'V'))


def power(ctx, n):
    """power and generalised waves carry the real power |a|^2-|b|^2"""
    S = ctx.cmat('s', n)
    Z1 = [ctx.real('u%d' % i, 0, s=(0.4, 2.5)) for i in range(n)]
    Zg = [zport(ctx, 'w%d' % i, 'G') for i in range(n)]
    G = ConvertGeneral(Zg, S, Z1, 'V', 'G')
    for j in range(n):
        P1 = 0.
        a = []
        for i in range(n):
            d = 1. if i == j else 0.
            s = S[i, j]
            V, I = d + s, (d - s) / Z1[i]
            P1 = P1 + np.real(V * np.conj(I)) / 2
            a.append((V + Zg[i] * I) / 2 / np.sqrt(np.real(Zg[i])))
        a = np.array(a)
        b = G @ a
        P2 = 0.
        for i in range(n):
            P2 = P2 + (np.real(a[i] * np.conj(a[i])) -
                       np.real(b[i] * np.conj(b[i]))) / 2
        ctx.eq('power', P2, P1, scale=1.)


def unchanged(ctx, n):
    """the arguments are not modified"""
    S = np.array([ctx.cmat('s%d_' % k, n) for k in range(2)])
    keep = np.array(S)
    z1 = [ctx.real('u%d' % i, 0, s=(0.4, 2.5)) for i in range(n)]
    z2 = np.array([ctx.real('w%d' % i, 0, s=(0.4, 2.5)) for i in range(n)])
    k1, k2 = list(z1), np.array(z2)
    ConvertGeneral(z2, S, z1)
    ctx.eq('S kept', S, keep)
    ctx.eq('Z1 kept', np.array(z1), np.array(k1))
    ctx.eq('Z2 kept', z2, k2)


def bad(ctx):
    S = ctx.cmat('s', 2)
    z = [ctx.real('u%d' % i, 0) for i in range(3)]
    ctx.raises('wrong length', ValueError, ConvertGeneral, z, S, 50.)
    ctx.raises('wrong length', ValueError, ConvertGeneral, 50., S, z)
    ctx.raises('unknown type', ValueError, ConvertGeneral, 50., S, 30., 'V', 'X')
    ctx.raises('unknown type', ValueError, ConvertGeneral, 50., S, 30., 'W', 'V')


def cases(tier):
    out = []

    def add(shape, t1, t2, f1, f2, **kw):
        nm = shape if isinstance(shape, str) else '-'.join(map(str, shape))
        out.append(('%s %s>%s %s %s' % (nm, t1, t2, f1, f2), 'conv',
                    dict(kw=dict(shape=shape, t1=t1, t2=t2, f1=f1, f2=f2, **kw))))
    for t1 in 'VPG':
        for t2 in 'VPG':
            add('scalar', t1, t2, 'scalar', 'scalar')
            add(('2d', 2), t1, t2, 'ports', 'ports', back=t1 + t2 != 'GG')
    for f1 in ('scalar', 'ports', 'grid'):
        for f2 in ('scalar', 'portsarray', 'grid'):
            add(('3d', 2, 2), 'V', 'V', f1, f2)
    add(('vec', 3), 'V', 'V', 'scalar', 'scalar')
    add(('vec', 2), 'P', 'G', 'grid', 'scalar')
    add(('vec', 1), 'V', 'P', 'scalar', 'scalar')
    add(('2d', 3), 'V', 'V', 'ports', 'scalar')
    add(('2d', 3), 'P', 'V', 'scalar', 'ports', back=False)
    add(('3d', 3, 2), 'P', 'V', 'grid', 'scalar')
    add(('3d', 2, 1), 'P', 'V', 'grid', 'ports')
    add(('3d', 1, 2), 'P', 'V', 'scalar', 'scalar')
    add(('3d', 3, 1), 'V', 'V', 'scalar', 'grid')
    for n in (1, 2, 3):
        out.append(('chain%d' % n, 'chain', dict(kw=dict(n=n))))
    for n in (1, 2):
        out.append(('power%d' % n, 'power', dict(kw=dict(n=n))))
        out.append(('unchanged%d' % n, 'unchanged', dict(kw=dict(n=n))))
    out.append(('bad', 'bad', {}))
    if tier == 'thorough':
        add(('2d', 3), 'G', 'V', 'ports', 'ports', back=False)
        add(('2d', 3), 'V', 'G', 'ports', 'scalar', back=False)
        add(('3d', 3, 3), 'V', 'V', 'grid', 'grid')
        add(('2d', 4), 'V', 'V', 'ports', 'scalar', back=False)
        add(('2d', 2), 'G', 'G', 'ports', 'ports')
    return out
