"""rfObject.deembed: the reference planes of the ports are moved along lines"""
import numpy as np
from pyRFtk import rfObject, rfTRL
from hxutil import *

META = dict(
    bounds='objects of 1-3 ports with arbitrary complex S at 1-2 frequencies; lines at 1-2 '
           'of the ports; lengths (positive and negative), line impedances, frequencies and '
           'the reference impedance symbolic; all three ways of giving the line',
    assumptions=['the circuit equations are non singular'])


def moved(ctx, label, T, S, f, Z, lines):
    """T: S with the lines of lengths and impedances {port: (L, Zc)} taken away (L > 0).
    For waves at the ports of T the waves at the ports of S beyond the lines agree"""
    n = len(S)
    for j in range(n):
        for_ = np.array([1. if k == j else 0. for k in range(n)])
        b = T @ for_
        V, I = for_ + b, (for_ - b) / Z
        Vs, Is = [], []
        for k in range(n):
            if k in lines:
                L, Zc = lines[k]
                # T's port k is at the inner end of the line, S's at the outer end:
                # V and I at a distance L from the inner end, I flowing inwards
                A, B, C, D = line_abcd(2j * np.pi * f / C0, Zc, L)
                Vs.append(A * V[k] + B * I[k])
                Is.append(C * V[k] + D * I[k])
            else:
                Vs.append(V[k])
                Is.append(I[k])
        Vs, Is = np.array(Vs), np.array(Is)
        ctx.eq(label, S @ (Vs + Z * Is), Vs - Z * Is)


def regular(ctx, S, f, Z, lines):
    """the equations of the lines taken away one by one are not singular"""
    for k, (L, Zc) in lines:
        A, B, C, D = line_abcd(2j * np.pi * f / C0, Zc, -L)
        # reflection and transmission of the line between matched ends
        q = A + B / Z + C * Z + D
        t0, t1 = (A + B / Z - C * Z - D) / q, 2 / q
        n = 1 - t0 * S[k, k]
        ctx.assume(np.abs(n) != 0)
        R = S + t0 / n * np.outer(S[:, k], S[k, :])
        R[:, k] = t1 / n * S[:, k]
        R[k, :] = t1 / n * S[k, :]
        R[k, k] = t0 + t1 * t1 * S[k, k] / n
        S = R
    return S


def run(ctx, N, lines, form='pair', nf=1, interp=False, units='Hz'):
    """lines: ports with a line"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    fs = [ctx.real('f1', 0, s=(2e7, 6e7))]
    if nf > 1:
        fs.append(fs[0] + ctx.real('df', 0, s=(1e7, 2e7)))
    Ss = [ctx.cmat('S%d_' % k, N) for k in range(nf)]
    u = {'Hz': 1., 'MHz': 1e6}[units]
    o = rfObject(ports=['p%d' % k for k in range(N)], Zbase=Z, interp='RI', funit=units)
    o.setS([f / u for f in fs], Ss)
    if interp:
        o.getS((fs[0] + fs[-1]) / 2 / u)
    arg, ln = {}, {}
    for k in lines:
        L = ctx.real('L%d' % k, 0, s=(.1, .6))
        Zc = Z
        if form == 'pair':
            Zc = ctx.real('Zc%d' % k, 0, s=(10., 90.))
            arg['p%d' % k] = (L, Zc)
        elif form == 'scalar':
            arg['p%d' % k] = L
        elif form == 'int':
            L = 1
            arg['p%d' % k] = L
        elif form == 'dict':
            # the arguments of the rfTRL that is added
            Zc = ctx.real('Zc%d' % k, 0, s=(10., 90.))
            arg['p%d' % k] = dict(L=-L, Z0TL=Zc)
        elif form == 'dict Zbase':
            Zc = ctx.real('Zc%d' % k, 0, s=(10., 90.))
            arg['p%d' % k] = dict(L=-L, Z0TL=Zc, Zbase=2 * Z)
        ln[k] = (L, Zc)
    for f, S in zip(fs, Ss):
        if form not in ('scalar', 'int'):
            regular(ctx, S, f, Z, [(k, ln[k]) for k in sorted(ln)])
    given = {k: dict(v) if isinstance(v, dict) else v for k, v in arg.items()}
    o.deembed(arg)
    ctx.true('argument not modified', list(arg) == list(given) and all(
        set(arg[p]) == set(given[p]) for p in arg if isinstance(given[p], dict)))
    for f, S in zip(fs, Ss):
        T = o.getS(f / u)
        ctx.true('shape', np.shape(T) == (N, N))
        moved(ctx, 'moved', T, S, f, Z, ln)
    if nf > 1:
        A, B = o.getS(fs[0] / u), o.getS(fs[1] / u)
        ctx.eq('between', o.getS((fs[0] + fs[1]) / 2 / u), (A + B) / 2)
    for k in range(nf):
        # the matrices supplied have not been changed
        ctx.eq('still', Ss[k], Ss[k] + 0.)


def tapered(ctx, N, kp, what):
    """the line added is not symmetric"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = ctx.real('f', 0, s=(2e7, 6e7))
    S = ctx.cmat('S', N)
    L = ctx.real('L', 0, 1, s=(.1, .5))
    l = [ctx.real('l%d' % i, 0, s=(2e-7, 6e-7)) for i in range(2)]
    kw = dict(L=L, dx=300., LTL=l, CTL=1e-10)
    if what == 'Z0TL':
        kw = dict(L=L, dx=300., Z0TL=[x * 1e8 for x in l])
    with Stepper(ctx):
        T = rfTRL(Zbase=Z, **kw).getS(f)
        # the two ends of the line differ
        ctx.assume(np.abs(1 - T[0, 0] * S[kp, kp]) != 0)
        ctx.assume(np.abs(T[1, 0]) != 0)
        o = rfObject(ports=['p%d' % k for k in range(N)], Zbase=Z, funit='Hz')
        o.setS(f, S)
        o.deembed({'p%d' % kp: kw})
        R = o.getS(f)
    for j in range(N):
        a = np.array([1. if k == j else 0. for k in range(N)])
        b = R @ a
        # waves at the junction of the line and the object (times T[1, 0])
        bo = b[kp] - T[1, 1] * a[kp]
        ao = T[0, 0] * bo + T[0, 1] * a[kp] * T[1, 0]
        Ao = np.array([ao if k == kp else a[k] * T[1, 0] for k in range(N)])
        Bo = np.array([bo if k == kp else b[k] * T[1, 0] for k in range(N)])
        ctx.eq('line added', S @ Ao, Bo)


def errors(ctx):
    S = ctx.cmat('S', 2)
    f = ctx.real('f', 0, s=(2e7, 6e7))
    o = rfObject(ports=['a', 'b'])
    o.setS(f, S)
    ctx.raises('unknown port', ValueError, o.deembed, {'c': (1., 50.)})
    ctx.raises('invalid data', ValueError, o.deembed, {'a': 'x'})
    ctx.raises('invalid data', ValueError, o.deembed, {'a': (1., 2., 3.)})


def cases(tier):
    for form in ('pair', 'scalar', 'int', 'dict', 'dict Zbase'):
        yield '2 ports ' + form, 'run', dict(kw=dict(N=2, lines=(1,), form=form))
    for N, lines in ((1, (0,)), (2, (0, 1)), (3, (1,)), (3, (2, 0))):
        for form in ('pair', 'scalar'):
            yield '%d ports %s %s' % (N, lines, form), 'run', dict(
                kw=dict(N=N, lines=lines, form=form))
    yield 'frequencies', 'run', dict(kw=dict(N=2, lines=(0,), nf=2))
    yield 'frequencies, evaluated', 'run', dict(kw=dict(N=2, lines=(0,), nf=2, interp=True))
    yield 'frequencies, two ports', 'run', dict(
        kw=dict(N=2, lines=(0, 1), nf=2, form='scalar', interp=True))
    for form in ('pair', 'scalar', 'dict'):
        yield 'units ' + form, 'run', dict(
            kw=dict(N=2, lines=(0,), nf=1, form=form, units='MHz'))
    yield 'units 2', 'run', dict(kw=dict(N=1, lines=(0,), nf=2, units='MHz', interp=True))
    for N, kp in ((1, 0), (2, 0), (2, 1)):
        for w in ('LTL', 'Z0TL'):
            yield 'tapered %d %d %s' % (N, kp, w), 'tapered', dict(
                kw=dict(N=N, kp=kp, what=w))
    yield 'invalid', 'errors', {}
