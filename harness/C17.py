"""rfObject: table of S-matrices versus frequency"""
import itertools
import numpy as np
from pyRFtk import rfObject, rfTRL
from engine.text import valtoken
from hxutil import *

META = dict(
    bounds='tables of 1-5 frequencies and 1-3 ports with arbitrary complex S, filled one by '
           'one or at once, in every order; 3 interpolation representations (magnitude and '
           'phase: 1-3 frequencies of a 1-port); all orders (0-3) of interpolation; '
           'frequency and reference impedances symbolic; lines given by touchstones of 2-3 '
           'frequencies in 3 formats (phases numeric)',
    assumptions=['different frequencies in a table', 'for the representation dB: no zeros'])


def freqs(ctx, n, tag='f'):
    fs = [ctx.real(tag + '1', 0, s=(2e7, 6e7))]
    for k in range(1, n):
        fs.append(fs[-1] + ctx.real('%s%d' % (tag, k + 1), 0, s=(1e6, 2e7)))
    return fs


def mats(ctx, n, N, tag='S'):
    return [ctx.cmat('%s%d_' % (tag, k), N) for k in range(n)]


def fill(ctx, fs, Ss, order, how, **kw):
    """the table filled in the given order of the frequencies"""
    N = len(Ss[0])
    if how == 'one by one':
        o = rfObject(ports=['p%d' % k for k in range(N)], **kw)
        for k in order:
            o.setS(fs[k], Ss[k])
    elif how == 'at once':
        o = rfObject(ports=['p%d' % k for k in range(N)], **kw)
        o.setS([fs[k] for k in order], [Ss[k] for k in order])
    elif how == 'portnames':
        o = rfObject(**kw)
        o.setS(np.array([fs[k] for k in order]), np.array([Ss[k] for k in order]),
               Portnames=['p%d' % k for k in range(N)])
    elif how == 'mixed':
        o = rfObject(**kw)
        o.setS(fs[order[0]], Ss[order[0]], Portnames=['p%d' % k for k in range(N)])
        if len(order) > 1:
            o.setS([fs[k] for k in order[1:]], [Ss[k] for k in order[1:]])
    elif how == 'touch between':
        # evaluated while it is being filled
        o = rfObject(ports=['p%d' % k for k in range(N)], **kw)
        for i, k in enumerate(order):
            o.setS(fs[k], Ss[k])
            if i:
                o.getS((fs[k] + fs[order[0]]) / 2)
    ctx.true('ports', list(o.ports) == ['p%d' % k for k in range(N)])
    ctx.true('len', len(o) == N)
    ctx.true('a position per port', len(o.xpos) == N)
    return o


def lagrange(x, ys, v):
    t = 0
    for i in range(len(x)):
        w = 1.
        for j in range(len(x)):
            if j != i:
                w = w * (v - x[j]) / (x[i] - x[j])
        t = t + ys[i] * w
    return t


def between(ctx, fs):
    """frequencies inside, in each interval, and outside"""
    r = []
    for k in range(len(fs) - 1):
        r.append(fs[k] + (fs[k + 1] - fs[k]) * ctx.real('t%d' % k, 0, .99, s=(.1, .9)))
    return r


def nodes(ctx, order, how, interp):
    fs = freqs(ctx, len(order))
    Ss = mats(ctx, len(order), 2)
    Z = ctx.real('Z', 0, s=(10., 90.))
    o = fill(ctx, fs, Ss, order, how, Zbase=Z, interp=interp)
    for k in range(len(fs)):
        ctx.eq('at a frequency of the table', o.getS(fs[k]), Ss[k])
    A = o.getS(fs)
    ctx.eq('several frequencies', A, np.array(Ss))
    A = o.getS([fs[-1], fs[0]])
    ctx.eq('several frequencies', A, np.array([Ss[-1], Ss[0]]))


def inter(ctx, order, how, kind=None):
    """real and imaginary part: interpolating polynomial / spline"""
    n = len(order)
    fs = freqs(ctx, n)
    Ss = mats(ctx, n, 1 if n > 3 else 2)
    kw = {} if kind is None else dict(interpkws={'kind': kind, 'fill_value': 'extrapolate'})
    o = fill(ctx, fs, Ss, order, how, interp='RI', **kw)
    deg = min(n - 1, 3 if kind is None else kind)
    x = between(ctx, fs)
    for j, v in enumerate(x):
        R = o.getS(v)
        ctx.true('shape', np.shape(R) == np.shape(Ss[0]))
        if deg == 1:
            w = lagrange(fs[j:j + 2], Ss[j:j + 2], v)
        elif deg == n - 1:
            w = lagrange(fs, Ss, v)
        elif deg == 0:
            w = Ss[j]
        else:
            continue
        ctx.eq('between', R, w)
    if n > 1:
        # after an interpolation the table is still exact
        ctx.eq('table after interpolation', o.getS(fs[0]), Ss[0])
        A = o.getS([x[-1], fs[-1], x[0]])
        ctx.eq('list', A[1], Ss[-1])
        ctx.eq('list', A[0], o.getS(x[-1]))
        ctx.eq('list', A[2], o.getS(x[0]))
    else:
        ctx.eq('single entry', o.getS(3 * fs[0]), Ss[0])


def spline(ctx, order):
    """5 frequencies: a cubic is reproduced, the table as well"""
    n = 5
    fs = [1e7, 2e7, 4e7, 5e7, 7e7]
    c = [ctx.cplx('c%d' % k) for k in range(4)]
    p = lambda f: np.array([[sum(ck * (f / 1e7) ** k for k, ck in enumerate(c))]])
    o = fill(ctx, fs, [p(f) for f in fs], order, 'one by one', interp='RI')
    for k in range(4):
        v = fs[k] + (fs[k + 1] - fs[k]) * ctx.real('t%d' % k, 0, .99, s=(.1, .9))
        ctx.eq('cubic', o.getS(v), p(v))


def polar(ctx, order, interp, phi):
    """magnitude (or its logarithm) and unwrapped phase of a 1-port"""
    n = len(order)
    fs = freqs(ctx, n)
    r = [ctx.real('r%d' % k, 0, 1, s=(.1, .9)) for k in range(n)]
    # the phases are given numbers: smooth but passing through +-180 degrees
    a = [phi[0] + k * phi[1] for k in range(n)]
    Ss = [np.array([[r[k] * np.exp(1j * np.pi * a[k])]]) for k in range(n)]
    o = fill(ctx, fs, Ss, order, 'one by one', interp=interp)
    for j, v in enumerate(between(ctx, fs)):
        if interp == 'MA':
            m = lagrange(fs, r, v)
        else:
            m = np.exp(lagrange(fs, [np.log(x) for x in r], v))
        ph = lagrange(fs, a, v) * np.pi
        ctx.eq('between', o.getS(v), np.array([[m * np.exp(1j * ph)]]))
    for k in range(n):
        ctx.eq('table', o.getS(fs[k]), Ss[k])


def reference(ctx, interp):
    """other reference impedance and units"""
    fs = freqs(ctx, 2)
    Ss = mats(ctx, 2, 2) if interp == 'RI' else [
        np.array([[.5, .25], [.125j, -.25]]), np.array([[.25, .125], [.25j, -.5]])]
    Z, Z2 = ctx.real('Z', 0, s=(10., 90.)), ctx.real('Z2', 0, s=(10., 90.))
    o = fill(ctx, fs, Ss, [0, 1], 'one by one', Zbase=Z, interp=interp)
    v = between(ctx, fs)[0]
    S = o.getS(v)
    for f, s in ((fs[1], Ss[1]), (v, S)):
        T = o.getS(f, Zbase=Z2)
        I = np.eye(2)
        # V = (I + S) a, Z I = (I - S) a
        V, J = I + s, (I - s) / Z
        ctx.eq('new reference', T @ (V + Z2 * J), V - Z2 * J)
    T = o.getS([v, fs[1]], Zbase=Z2)
    ctx.eq('list', T[0], o.getS(v, Zbase=Z2))
    ctx.eq('list', T[1], o.getS(fs[1], Zbase=Z2))
    ctx.eq('unchanged', o.getS(v), S)
    ctx.eq('units', o.getS(v / 1e6, funit='MHz'), S)
    ctx.eq('units', o.getS([fs[0] / 1e3], funit='kHz'), np.array([Ss[0]]))


def units(ctx, how):
    """a table in other units"""
    fs = freqs(ctx, 2)
    Ss = mats(ctx, 2, 1)
    o = rfObject(ports=['a'], funit='MHz', interp='RI')
    o.setS([f / 1e6 for f in fs], Ss)
    v = between(ctx, fs)[0]
    w = lagrange(fs, Ss, v)
    if how == 'own':
        ctx.eq('own units', o.getS(fs[1] / 1e6), Ss[1])
        ctx.eq('own units', o.getS(v / 1e6), w)
    else:
        ctx.eq('Hz', o.getS(v, funit='Hz'), w)
        ctx.eq('GHz', o.getS(v / 1e9, funit='ghz'), w)


def constant(ctx, form, interp):
    """an object made of one matrix"""
    S = ctx.cmat('S', 2)
    Z, Z2 = ctx.real('Z', 0, s=(10., 90.)), ctx.real('Z2', 0, s=(10., 90.))
    if interp == 'MA':
        S = np.array([[.5, .25], [0., -.25j]])
    A = {'list': [list(r) for r in S], 'array': S}[form]
    o = rfObject(A, Zbase=Z, ports=['a', 'b'], interp=interp)
    f = ctx.real('f', 0, s=(1e6, 1e9))
    ctx.eq('any frequency', o.getS(f), S)
    ctx.eq('any frequency', o.getS([f, 2 * f]), np.array([S, S]))
    T = o.getS(f, Zbase=Z2)
    I = np.eye(2)
    ctx.eq('new reference', T @ (I + S + (I - S) * (Z2 / Z)), I + S - (I - S) * (Z2 / Z))
    ctx.true('ports', list(o.ports) == ['a', 'b'] and len(o) == 2)
    ctx.true('default ports', len(rfObject(A).ports) == 2)


def line(ctx, fmt, n, phi, unit='MHz', Zb=False):
    """a line of which the S-matrix is given by a touchstone"""
    scale = {'Hz': 1., 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}[unit]
    fs = [scale * (10. + 5. * k) for k in range(n)]
    Z = ctx.real('Z', 0, s=(10., 90.))
    rows, m, a, Ss = [], [], [], []
    for k in range(n):
        row = ['%g' % (10. + 5. * k)]
        m.append(ctx.cmat('S%d_' % k, 2) if fmt == 'RI' else np.array(
            [[ctx.real('%s%d' % (c, k), 0, 1, s=(.1, .9)) for c in cc] for cc in ('ab', 'cd')]))
        # the phases (half turns) are given numbers, each passing through +-180 degrees
        a.append(np.array([[phi[0] + k * phi[1], .25 - k * phi[1]],
                           [.5 + k * phi[1], -.75 * k]]))
        for i, j in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if fmt == 'RI':
                x, y = m[k][i, j].real, m[k][i, j].imag
            else:
                t = (a[k][i, j] + 1) % 2 - 1
                x, y = m[k][i, j] * (-20. if fmt == 'DB' else 1), 180. * t
            row += [valtoken(x), valtoken(y) if fmt == 'RI' else '%g' % y]
        rows.append(' '.join(row))
    Zf = ctx.real('Zf', 0, s=(10., 90.)) if Zb == 'file' else Z
    T = '\n'.join(['# %s S %s R %s' % (unit, fmt, valtoken(Zf))] + rows)
    o = rfTRL(L=1., Z0TL=30., Zbase=Z, sNp=T)
    v = [fs[k] + (fs[k + 1] - fs[k]) * ctx.real('t%d' % k, 0, .99, s=(.1, .9))
         for k in range(n - 1)]

    def S(f):
        M = lagrange(fs, m, f)
        if fmt == 'DB':
            M = np.exp(-np.log(10.) * M)
        return M if fmt == 'RI' else M * np.exp(1j * np.pi * lagrange(fs, a, f))
    if Zb == 'file':
        I = np.eye(2)
        for k, f in enumerate(fs):
            T, R = o.getS(f), m[k]
            ctx.eq('reference of the file', T @ (I + R + (I - R) * (Z / Zf)),
                   I + R - (I - R) * (Z / Zf))
        return
    for f in v + fs:
        ctx.eq('table' if f in fs else 'between', o.getS(f), S(f))
    if Zb:
        Z2 = ctx.real('Z2', 0, s=(10., 90.))
        I = np.eye(2)
        T, R = o.getS(v[0], Zbase=Z2), S(v[0])
        ctx.eq('new reference', T @ (I + R + (I - R) * (Z2 / Z)), I + R - (I - R) * (Z2 / Z))
    else:
        A = o.getS([fs[-1], v[0]])
        ctx.eq('several', A[0], S(fs[-1]))
        ctx.eq('several', A[1], S(v[0]))


def errors(ctx):
    S = ctx.cmat('S', 2)
    f = ctx.real('f', 0, s=(1e6, 1e9))
    o = rfObject(ports=['a', 'b'])
    ctx.raises('number of matrices', ValueError, o.setS, [f, 2 * f], [S])
    ctx.raises('number of ports', ValueError, o.setS, f, ctx.cmat('R', 3))
    ctx.raises('shape', ValueError, o.setS, f, S[:, :1])
    ctx.raises('ports defined', ValueError, o.setS, f, S, ['a', 'b'])
    ctx.raises('shape', TypeError, rfObject, S[:1])
    ctx.raises('type', TypeError, rfObject, 'S')
    ctx.raises('ports', ValueError, rfObject, S, ports=['a'])
    o.setS(f, S)
    ctx.eq('still usable', o.getS(f), S)
    o = rfObject(ports=['a', 'b'], interpkws={'kind': 1, 'bounds_error': True}, interp='RI')
    o.setS([f, 2 * f], [S, S])
    ctx.raises('outside', ValueError, o.getS, 3 * f)
    ctx.raises('outside', ValueError, o.getS, f / 2)


def cases(tier):
    hows = ('one by one', 'at once', 'portnames', 'mixed', 'touch between')
    for n in (1, 2, 3):
        for order in itertools.permutations(range(n)):
            for how in hows:
                for interp in ('RI', 'MA', 'dB'):
                    if interp == 'RI' or how in ('at once', 'one by one'):
                        yield 'table %s %s %s' % (interp, how, order), 'nodes', dict(
                            kw=dict(order=order, how=how, interp=interp))
    for n in (1, 2, 3, 4):
        for order in itertools.permutations(range(n)):
            for how in hows:
                if n < 4 or how == hows[sum(order[:2]) % 4]:
                    yield 'between %s %s' % (how, order), 'inter', dict(
                        kw=dict(order=order, how=how))
    for kind in (0, 1, 2):
        for order in ((0, 1, 2), (2, 0, 1)):
            yield 'kind %d %s' % (kind, order), 'inter', dict(
                kw=dict(order=order, how='one by one', kind=kind))
    for order in ((0, 1, 2, 3, 4), (4, 0, 3, 1, 2)):
        yield 'spline %s' % (order,), 'spline', dict(kw=dict(order=order))
    for interp in ('MA', 'dB'):
        for phi in ((0.5, .75), (.75, .5), (.5, -.75)):
            for n in (2, 3):
                for order in itertools.permutations(range(n)):
                    if n == 2 and order == (1, 0) and phi[0] != .75:
                        continue
                    yield '%s %s %s' % (interp, phi, order), 'polar', dict(
                        kw=dict(order=order, interp=interp, phi=phi))
    for interp in ('RI', 'MA'):
        yield 'reference ' + interp, 'reference', dict(kw=dict(interp=interp))
    for n in (2, 3):
        for unit in ('MHz', 'GHz') if n == 2 else ('kHz',):
            yield 'line RI %d %s' % (n, unit), 'line', dict(
                kw=dict(fmt='RI', n=n, phi=(0., 0.), unit=unit))
        for phi in ((.5, .75), (.75, .5), (.5, -.75)):
            for fmt in ('MA', 'DB'):
                yield 'line %s %d %s' % (fmt, n, phi), 'line', dict(
                    kw=dict(fmt=fmt, n=n, phi=phi))
    for z in (True, 'file'):
        yield 'line RI reference %s' % z, 'line', dict(
            kw=dict(fmt='RI', n=2, phi=(0., 0.), Zb=z))
    for how in ('own', 'other'):
        yield 'units ' + how, 'units', dict(kw=dict(how=how))
    for form in ('list', 'array'):
        for interp in ('RI', 'MA'):
            yield 'constant %s %s' % (form, interp), 'constant', dict(
                kw=dict(form=form, interp=interp))
    yield 'invalid', 'errors', {}
