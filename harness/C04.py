"""rfTRL: voltages and currents along the line"""
import numpy as np
from pyRFtk import rfTRL
from hxutil import *
from hxode import *

META = dict(
    bounds='one line section, L in (0, 1], 2 to 4 nodes along the line; frequency, '
           'length, impedances, incident waves symbolic')


def freq(ctx, name='f'):
    return ctx.real(name, 0, s=(2e7, 6e7))


def base(ctx, name='Zb'):
    return ctx.real(name, 0, s=(10., 90.))


def line(ctx, lossy):
    Z0 = base(ctx, 'Z0')
    p = dict(Z0TL=Z0)
    r = 0.
    if lossy:
        r = p['rTL'] = ctx.real('r', 0, s=(1., 30.))
    return p, (lambda w: r + 1j * w * Z0 / C0), (lambda w: 1j * w / (Z0 * C0))


def step(ctx, dx, L, n=2.5):
    if dx in ('+', '-'):
        d = ctx.real('dx', 0, s=(0.4, 1.))
        ctx.assume(L < d * n)
        return d if dx == '+' else -d
    return dx


def check_sol(ctx, gm, Zc, L, Zref, a, xs, V, I):
    n = len(xs)
    ctx.true('as many voltages and currents as nodes', len(V) == n and len(I) == n)
    ctx.eq('starts at port 1', xs[0], 0.)
    ctx.eq('ends at port 2', xs[n - 1], L)
    for k in range(n - 1):
        ctx.true('nodes increase', xs[k] <= xs[k + 1])
    # incident waves; the current at port 1 flows out of the line
    ctx.eq('incident wave at port 1', V[0] - Zref * I[0], 2 * a[0])
    ctx.eq('incident wave at port 2', V[n - 1] + Zref * I[n - 1], 2 * a[1])
    for k in range(1, n):
        A, B, C, D = line_abcd(gm, Zc, xs[k])
        ctx.eq('V along the line', V[k], A * V[0] + B * I[0])
        ctx.eq('I along the line', I[k], C * V[0] + D * I[0])


def visws(ctx, lossy, dx, ref, swap):
    f = freq(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    Zb = base(ctx)
    Zref = base(ctx, 'Zr') if ref else Zb
    dx = step(ctx, dx, L)
    p, zs, yp = line(ctx, lossy)
    w = 2 * np.pi * f
    gm = (zs(w) * yp(w)) ** 0.5
    Zc = zs(w) / gm
    a = [ctx.cplx('a1'), ctx.cplx('a2')]
    ports = ['b', 'a'] if swap else ['a', 'b']
    TL = rfTRL(L=L, Zbase=Zb, dx=dx, ports=list(ports), **p)
    E = {'a': a[1] if swap else a[0], 'b': a[0] if swap else a[1]}
    keep = dict(E)
    xs, (V, I, _) = TL.VISWs(f, E, Zref) if ref else TL.VISWs(f, E)
    check_sol(ctx, gm, Zc, L, Zref, a, xs, V, I)
    ctx.true('excitation unchanged', list(E) == list(keep))
    for k in keep:
        ctx.eq('excitation unchanged', E[k], keep[k])


def maxv(ctx, lossy, dx, ref):
    f = freq(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    Zb = base(ctx)
    Zref = base(ctx, 'Zr') if ref else Zb
    dx = step(ctx, dx, L, 2.)
    p, _, _ = line(ctx, lossy)
    a = {'1': ctx.cplx('a1'), '2': ctx.cplx('a2')}
    xs, (V, I, _) = rfTRL(L=L, Zbase=Zb, dx=dx, **p).VISWs(f, a, Zref)
    m, where, (x2, U) = rfTRL(L=L, Zbase=Zb, dx=dx, **p).maxV(f, a, Zref)
    ctx.true('text', isinstance(where, str))
    ctx.eq('nodes', x2, xs)
    ctx.eq('magnitudes', U, np.abs(V))
    for k in range(len(xs)):
        ctx.le('maximum', np.abs(V[k]), m)
    if len(xs) == 2:
        ctx.eq('maximum is attained', (m - np.abs(V[0])) * (m - np.abs(V[1])), 0.)


def halfwave(ctx):
    """half a wavelength: the maximum is inside the line"""
    f = freq(ctx)
    L = C0 / (2 * f)
    Z0 = base(ctx, 'Z0')
    Zb = base(ctx)
    a1 = ctx.real('a1', 0, s=(0.3, 1))
    TL = rfTRL(L=L, Zbase=Zb, Z0TL=Z0, dx=L / 2.5)
    m, where, (xs, U) = TL.maxV(f, {'1': a1, '2': 0.})
    ctx.eq('nodes', xs, np.array([0., L / 2, L]))
    # a half wave line is matched: |V| = a1 at both ends, Z0/Zb a1 in the middle
    ctx.eq('standing wave', U, np.array([a1, a1 * Z0 / Zb, a1]))
    ctx.le('maximum', U, np.array([m] * 3))
    ctx.eq('maximum is one of the samples', (m - a1) * (m - a1 * Z0 / Zb), 0.)


def history(ctx, order):
    """results do not depend on what was asked before"""
    f = freq(ctx)
    f2 = freq(ctx, 'f2')
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    Zb, Zr, Zr2 = base(ctx), base(ctx, 'Zr'), base(ctx, 'Zr2')
    p, _, _ = line(ctx, False)
    E1 = {'1': ctx.cplx('a1'), '2': ctx.cplx('a2')}
    E2 = {'1': ctx.cplx('b1'), '2': ctx.cplx('b2')}
    calls = {'a': (f, E1, None), 'b': (f, E1, Zr), 'c': (f, E2, None),
             'd': (f2, E1, None), 'e': (f2, E2, Zr), 'f': (f, E1, Zr2)}
    new = lambda: rfTRL(L=L, Zbase=Zb, dx=300., **p)
    TL = new()
    for c in order:
        if c in 'LM':     # another length
            L = 3 * L if c == 'L' else L / 2
            ctx.true('set', TL.set(**({'L': L, 'dx': 300.} if c == 'L' else {'L': L})))
            continue
        g, E, Z = calls[c]
        xs, (V, I, _) = TL.VISWs(g, E, Z)
        x1, (V1, I1, _) = new().VISWs(g, E, Z)
        ctx.eq('V does not depend on earlier calls', V, V1)
        ctx.eq('I does not depend on earlier calls', I, I1)
        ctx.eq('x does not depend on earlier calls', np.array([xs[0], xs[len(xs) - 1]]),
               np.array([0., L]))
    ctx.eq('S does not depend on earlier calls', TL.getS(g), new().getS(g))


def voltage(ctx, dx):
    """solveVI propagates a given voltage and current"""
    f = freq(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    dx = step(ctx, dx, L)
    p, zs, yp = line(ctx, True)
    w = 2 * np.pi * f
    gm = (zs(w) * yp(w)) ** 0.5
    Zc = zs(w) / gm
    TL = rfTRL(L=L, dx=dx, **p)
    V0, I0 = ctx.cplx('V0'), ctx.cplx('I0')
    for v, i in ((V0, I0), (V0, None), (None, I0)):
        xs, V, I = TL.solveVI(f, v, i)
        v, i = (0. if v is None else v), (0. if i is None else i)
        for k in range(len(xs)):
            A, B, C, D = line_abcd(gm, Zc, xs[k])
            ctx.eq('V', V[k], A * v + B * i)
            ctx.eq('I', I[k], C * v + D * i)


def tapered(ctx, ref, dx):
    """a line with varying parameters, a solution of its equations given by a stand-in"""
    f, L, Zb = freq(ctx), ctx.real('L', 0, 1, s=(0.1, 1.)), base(ctx)
    Zref = base(ctx, 'Zr') if ref else Zb
    w = 2 * np.pi * f
    z = [base(ctx, 'Z1'), base(ctx, 'Z2')]
    Z0 = pl([0., L], z)
    st = Stub(ctx, w, lambda w, x: 1j * w * Z0(x) / C0, lambda w, x: 1j * w / (Z0(x) * C0), L)
    a = [ctx.cplx('a1'), ctx.cplx('a2')]
    st.install()
    try:
        TL = rfTRL(L=L, Zbase=Zb, dx=step(ctx, dx, L), Z0TL=z)
        xs, (V, I, _) = TL.VISWs(f, {'1': a[0], '2': a[1]}, Zref)
        x2, (V2, I2, _) = TL.VISWs(f, {'1': 0., '2': a[1]}, Zref)
    finally:
        st.remove()
    for j, (x, V, I, a) in enumerate(((xs, V, I, a), (x2, V2, I2, [0., a[1]]))):
        n = len(x)
        s1, s2 = st.sols[-2:] if j else st.sols[:2]
        ctx.true('as many as nodes', len(V) == len(I) == n == len(st.sols[0]))
        ctx.eq('ends', np.array([x[0], x[n - 1]]), np.array([0., L]))
        ctx.eq('incident wave at port 1', V[0] - Zref * I[0], 2 * a[0])
        ctx.eq('incident wave at port 2', V[n - 1] + Zref * I[n - 1], 2 * a[1])
        cx = lambda s: np.array([s[0] + 1j * s[1], s[2] + 1j * s[3]])
        A = np.array([cx(s1[0]), cx(s2[0])]).T
        c = np.linalg.solve(A, np.array([V[0], I[0]]))
        for i in range(n):
            ctx.eq('a solution of the equations', np.array([V[i], I[i]]),
                   cx(s1[i]) * c[0] + cx(s2[i]) * c[1])


def cases(tier):
    out = []
    for lossy in (0, 1):
        for dx in (300., '+', '-'):
            for ref in (0, 1):
                for swap in ((0, 1) if dx == 300. else (0,)):
                    out.append(('visws lossy%d dx%s ref%d swap%d' %
                                (lossy, dx, ref, swap), 'visws',
                                dict(kw=dict(lossy=lossy, dx=dx, ref=ref, swap=swap))))
    for lossy, dx, ref in ((0, 300., 0), (0, 300., 1), (1, 300., 0)):
        out.append(('maxV lossy%d dx%s ref%d' % (lossy, dx, ref), 'maxv',
                    dict(kw=dict(lossy=lossy, dx=dx, ref=ref))))
    for ref, dx in ((0, 300.), (1, 300.), (0, '+'), (1, '-')):
        out.append(('tapered %d %s' % (ref, dx), 'tapered', dict(kw=dict(ref=ref, dx=dx))))
    out.append(('halfwave', 'halfwave', {}))
    for o in ('abca', 'ab', 'ba', 'acdaec', 'badeb', 'bfb', 'La', 'aLa', 'abLMba', 'LMLca'):
        out.append(('history ' + o, 'history', dict(kw=dict(order=o))))
    for dx in (300., '+', '-'):
        out.append(('voltage dx%s' % dx, 'voltage', dict(kw=dict(dx=dx))))
    return out
