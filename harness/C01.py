"""S/Z/Y conversions"""
import numpy as np
import pyRFtk
from pyRFtk import S_from_Z, Z_from_S, S_from_Y, Y_from_S, S_from_VI

META = dict(bounds='1 to 3 ports (4 in the thorough tier), 1 to 3 frequencies, all '
                   'entries and the reference impedance symbolic')


def _args(ctx, shape):
    """argument in the given form and the equivalent list of matrices"""
    if shape == 'scalar':
        z = ctx.cplx('m')
        return z, [np.array([[z]])]
    if shape[0] == 'list':
        zs = [ctx.cplx('m%d' % k) for k in range(shape[1])]
        return zs, [np.array([[z]]) for z in zs]
    if shape[0] == 'vec':
        zs = [ctx.cplx('m%d' % k) for k in range(shape[1])]
        return np.array(zs), [np.array([[z]]) for z in zs]
    if shape[0] == '2d':
        M = ctx.cmat('m', shape[1])
        return M, [M]
    if shape[0] == '2dlist':
        M = ctx.cmat('m', shape[1])
        return M.tolist(), [M]
    Ms = [ctx.cmat('m%d_' % k, shape[2]) for k in range(shape[1])]
    return (np.array(Ms) if shape[0] == '3d' else [m.tolist() for m in Ms]), Ms


def _split(ctx, label, R, shape, Ms):
    """the result has the form of the argument; list of matrices"""
    if shape == 'scalar':
        ctx.true(label + ' of a scalar is a scalar', np.ndim(R) == 0)
        return [np.array([[R]])]
    if shape[0] in ('list', 'vec'):
        ctx.true(label + ' shape', np.shape(R) == (shape[1],))
        return [np.array([[R[k]]]) for k in range(shape[1])]
    if shape[0] in ('2d', '2dlist'):
        ctx.true(label + ' shape', np.shape(R) == (shape[1], shape[1]))
        return [R]
    ctx.true(label + ' shape', np.shape(R) == (shape[1], shape[2], shape[2]))
    return [R[k] for k in range(shape[1])]


def conv(ctx, shape, which):
    Zb = ctx.real('Zb', 0, s=(0.3, 3.))
    arg, Ms = _args(ctx, shape)
    f = {'S_from_Z': S_from_Z, 'Z_from_S': Z_from_S, 'S_from_Y': S_from_Y,
         'Y_from_S': Y_from_S}[which]
    inv = {'S_from_Z': Z_from_S, 'Z_from_S': S_from_Z, 'S_from_Y': Y_from_S,
           'Y_from_S': S_from_Y}[which]
    R = f(arg, Zb)
    Rs = _split(ctx, which, R, shape, Ms)
    for k, (M, X) in enumerate(zip(Ms, Rs)):
        n = len(M)
        I = np.eye(n)
        if which == 'Z_from_S':
            ctx.eq('V=ZI', X @ (I - M), Zb * (I + M))
        elif which == 'S_from_Z':
            # a = (V + Zb I)/2, b = (V - Zb I)/2 with V = Z I
            ctx.eq('b=Sa', X @ (M + Zb * I), M - Zb * I)
        elif which == 'Y_from_S':
            ctx.eq('I=YV', Zb * (X @ (I + M)), I - M)
        else:
            ctx.eq('b=Sa', X @ (I + Zb * M), I - Zb * M)
    back = inv(R, Zb)
    for M, X in zip(Ms, _split(ctx, 'inverse of ' + which, back, shape, Ms)):
        ctx.eq('round trip', X, M)


def zy(ctx, n):
    """Z and Y of the same S are inverse matrices; both definitions agree"""
    Zb = ctx.real('Zb', 0, s=(0.3, 3.))
    S = ctx.cmat('s', n)
    Z = Z_from_S(S, Zb)
    Y = Y_from_S(S, Zb)
    ctx.eq('Z Y = 1', Z @ Y, np.eye(n))
    ctx.eq('default Zbase', S_from_Z(S), S_from_Z(S, 50.))
    ctx.eq('default Zbase Z', Z_from_S(S), Z_from_S(S, 50.))
    ctx.eq('default Zbase Y', Y_from_S(S), Y_from_S(S, 50.))
    if n == 1:
        ctx.eq('short', Z_from_S(-1., Zb), 0.)
        ctx.eq('match', S_from_Z(Zb, Zb), 0.)


def vi(ctx, aslist):
    Z0 = ctx.real('Z0', 0, s=(0.5, 3))
    M = ctx.cmat('m', 2)
    V1, I1 = ctx.cplx('V1'), ctx.cplx('I1')
    V2 = M[0, 0] * V1 + M[0, 1] * I1
    I2 = M[1, 0] * V1 + M[1, 1] * I1
    S = S_from_VI(M.tolist() if aslist else M, Z0)
    # currents into the ports: -I1 at port 1, I2 at port 2
    a = np.array([V1 - Z0 * I1, V2 + Z0 * I2])
    b = np.array([V1 + Z0 * I1, V2 - Z0 * I2])
    ctx.eq('b=Sa', S @ a, b)
    ctx.raises('3x3 rejected', ValueError, S_from_VI, np.eye(3), Z0)


def bad(ctx):
    M = ctx.cmat('m', 2, 3)
    for f in (S_from_Z, Z_from_S, S_from_Y, Y_from_S):
        ctx.raises('non square rejected', (ValueError, TypeError), f, M, 50.)


def cases(tier):
    out = []
    shapes = ['scalar', ('list', 1), ('list', 3), ('vec', 2), ('2d', 1), ('2d', 2),
              ('2d', 3), ('2dlist', 2), ('3d', 1, 2), ('3d', 2, 2), ('3d', 3, 2),
              ('3d', 2, 3), ('3dlist', 2, 1), ('3d', 3, 1)]
    if tier == 'thorough':
        shapes += [('3d', 3, 3), ('2d', 4), ('3dlist', 4, 2)]
    for w in ('S_from_Z', 'Z_from_S', 'S_from_Y', 'Y_from_S'):
        for s in shapes:
            nm = s if isinstance(s, str) else '-'.join(map(str, s))
            out.append(('%s %s' % (w, nm), 'conv', dict(kw=dict(shape=s, which=w))))
    for n in (1, 2, 3):
        out.append(('ZY%d' % n, 'zy', dict(kw=dict(n=n))))
    out.append(('VI', 'vi', dict(kw=dict(aslist=False))))
    out.append(('VI list', 'vi', dict(kw=dict(aslist=True))))
    out.append(('non square', 'bad', {}))
    return out
