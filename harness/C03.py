"""rfTRL: scattering matrix of a transmission line"""
import sys
import numpy as np
from pyRFtk import rfTRL, ConvertGeneral
from hxutil import *
from hxode import *

META = dict(
    bounds='one line section; L in (0, 1], up to 4 nodes along the line; frequency, '
           'length, reference impedance and line parameters symbolic; lines with '
           'varying parameters: piecewise linear with 2 or 3 nodes, the ODE solver '
           'replaced by an arbitrary solution',
    assumptions=['scipy.integrate.odeint solves the initial value problem it is given '
                 '(replaced by a stub returning symbolic values; the stub checks the '
                 'equation, the initial values and the nodes it receives)'])


def freq(ctx, name='f'):
    return ctx.real(name, 0, s=(2e7, 6e7))


def base(ctx, name='Zb'):
    return ctx.real(name, 0, s=(10., 90.))


def params(ctx, kind):
    """line parameters (kwargs), and functions w -> series impedance, shunt
    admittance per length"""
    if kind == 'rlgc':
        p = dict(rTL=ctx.real('r', 0, s=(1., 30.)), LTL=ctx.real('l', 0, s=(2e-7, 5e-7)),
                 CTL=ctx.real('c', 0, s=(5e-11, 2e-10)))
        # a conductance cannot be given without a medium loss
        return p, (lambda w: p['rTL'] + 1j * w * p['LTL']), (lambda w: 1j * w * p['CTL'])
    Z0 = ctx.real('Z0', 0, s=(10., 90.))
    vr = 1.
    r = g = 0.
    p = dict(Z0TL=Z0)
    if 'vr' in kind:
        vr = p['vr'] = ctx.real('vr', 0, 1, s=(0.5, 0.95))
    if 'epsr' in kind:
        n = ctx.real('n', 1, 3, s=(1.1, 1.7))
        p['epsr'] = n ** 2
        vr = 1 / n
    if 'rTL' in kind:
        r = p['rTL'] = ctx.real('r', 0, s=(1., 30.))
    if 'LTL' in kind:
        p['LTL'] = ctx.real('l', 0, s=(2e-7, 5e-7))
        vr = Z0 / p['LTL'] / C0
    if 'CTL' in kind:
        p['CTL'] = ctx.real('c', 0, s=(5e-11, 2e-10))
        vr = 1 / (Z0 * p['CTL']) / C0
    return p, (lambda w: r + 1j * w * Z0 / (C0 * vr)), \
        (lambda w: g + 1j * w / (Z0 * C0 * vr))


def step(ctx, dx, L):
    if dx in ('+', '-'):
        d = ctx.real('dx', 0, s=(0.4, 1.))
        ctx.assume(L < d * 2.5)
        return d if dx == '+' else -d
    return dx


def uniform(ctx, kind, dx, zero=False):
    f = freq(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    Zb = base(ctx)
    p, zs, yp = params(ctx, kind)
    dx = step(ctx, dx, L)
    w = 2 * np.pi * f
    z, y = zs(w), yp(w)
    if dx == 3:
        # up to 1.2 wavelengths
        ctx.assume(5 * np.pi > 2 * L * np.imag(y) * p['Z0TL'])
    TL = rfTRL(L=L, Zbase=Zb, dx=dx, **p)
    S = TL.getS(f)
    gm = (z * y) ** 0.5
    Zc = z / gm
    check_line_S(ctx, 'telegraphist', S, gm, Zc, L, Zb)
    ctx.eq('reciprocal', S[0, 1], S[1, 0])
    ctx.eq('symmetric', S[0, 0], S[1, 1])
    if 'rTL' not in kind and kind != 'rlgc':
        ctx.eq('lossless', np.conj(S.T) @ S, np.eye(2))
    # other reference impedance
    Z2 = base(ctx, 'Zb2')
    S2 = TL.getS(f, Zbase=Z2)
    check_line_S(ctx, 'reference impedance', S2, gm, Zc, L, Z2)


def matched(ctx):
    """a line on its own impedance only delays"""
    f = freq(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    Z0 = base(ctx, 'Z0')
    S = rfTRL(L=L, Zbase=Z0, Z0TL=Z0, dx=300.).getS(f)
    e = np.exp(-1j * 2 * np.pi * f * L / C0)
    ctx.eq('delay', S, np.array([[0., e], [e, 0.]]))
    S = rfTRL(L=L, Zbase=Z0, dx=300.).getS(f)
    ctx.eq('default impedance is Zbase', S, np.array([[0., e], [e, 0.]]))
    Z1 = base(ctx, 'Z1')
    T = rfTRL(L=L, Z0TL=Z1, dx=300.)
    ctx.eq('default Zbase is 50', T.getS(f), rfTRL(L=L, Z0TL=Z1, Zbase=50., dx=300.).getS(f))


def cascade(ctx, kind):
    """two pieces in series are the whole line"""
    f = freq(ctx)
    Zb = base(ctx)
    L1 = ctx.real('L1', 0, 1, s=(0.1, .5))
    L2 = ctx.real('L2', 0, 1, s=(0.1, .5))
    p, _, _ = params(ctx, kind)
    A = rfTRL(L=L1, Zbase=Zb, dx=300., **p).getS(f)
    B = rfTRL(L=L2, Zbase=Zb, dx=300., **p).getS(f)
    C = rfTRL(L=L1 + L2, Zbase=Zb, dx=300., **p).getS(f)
    d = 1 - A[1, 1] * B[0, 0]
    ctx.eq('through', C[1, 0] * d, A[1, 0] * B[1, 0])
    ctx.eq('reflection', C[0, 0] * d, A[0, 0] * d + A[0, 1] * B[0, 0] * A[1, 0])


def zero(ctx, dx, given):
    f = freq(ctx)
    Zb = base(ctx)
    p, _, _ = params(ctx, 'Z0 vr rTL')
    TL = rfTRL(L=0., Zbase=Zb, dx=dx, **p) if given else rfTRL(Zbase=Zb, dx=dx, **p)
    ctx.eq('a line of length 0 is a through', TL.getS(f), np.array([[0., 1.], [1., 0.]]))
    V0, I0 = ctx.cplx('V0'), ctx.cplx('I0')
    xs, V, I = TL.solveVI(f, V0, I0)
    ctx.eq('V', V[-1], V0)
    ctx.eq('I', I[-1], I0)


def several(ctx, dx):
    """an array of frequencies gives the array of the single results"""
    Zb = base(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    p, _, _ = params(ctx, 'Z0 vr')
    f1, f2 = freq(ctx, 'f1'), freq(ctx, 'f2')
    TL = rfTRL(L=L, Zbase=Zb, dx=dx, **p)
    Ss = TL.getS([f1, f2, f1])
    ctx.true('shape', np.shape(Ss) == (3, 2, 2))
    for k, f in enumerate((f1, f2, f1)):
        ctx.eq('same as single', Ss[k], rfTRL(L=L, Zbase=Zb, dx=dx, **p).getS(f))
    Z2 = base(ctx, 'Zb2')
    Ss = TL.getS(np.array([f2, f1]), Z2)
    ctx.eq('on Zbase', Ss[0], rfTRL(L=L, Zbase=Z2, dx=dx, **p).getS(f2))
    ctx.eq('on Zbase', Ss[1], rfTRL(L=L, Zbase=Z2, dx=dx, **p).getS(f1))
    ctx.true('one frequency in a list', np.shape(TL.getS([f1])) == (1, 2, 2))


def changing(ctx, how):
    """a line whose length is changed is the line of that length"""
    Zb = base(ctx)
    L1 = ctx.real('L1', 0, 1, s=(0.1, 1.))
    L2 = ctx.real('L2', 0, 1, s=(0.1, 1.))
    p, _, _ = params(ctx, 'Z0 rTL')
    f = freq(ctx, 'f')
    TL = rfTRL(L=L1, Zbase=Zb, dx=300., **p)
    S1 = TL.getS(f)
    if how == 'params':
        S2 = TL.getS(f, params={'L': L2})
    elif how == 'set':
        ctx.true('set reports the change', TL.set(L=L2) == (not L1 == L2))
        S2 = TL.getS(f)
    else:
        TL.solveVI(f)
        TL.set(L=L2)
        S2 = TL.solveVI(f)
    ctx.eq('new length', S2, rfTRL(L=L2, Zbase=Zb, dx=300., **p).getS(f))
    ctx.eq('xpos', np.array(TL.xpos), np.array([0., L2]))
    TL.set(L=L1)
    ctx.eq('back', TL.getS(f), S1)
    ctx.raises('unknown attribute', ValueError, TL.set, LL=3.)


def varying(ctx, what, dx, n):
    f = freq(ctx)
    w = 2 * np.pi * f
    Zb = base(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    dx = step(ctx, dx, L)
    one = lambda x: 1.
    Z0, vr, r = None, one, lambda x: 0.
    kw = {}
    if what == 'Z0list':
        v = [base(ctx, 'Z%d' % i) for i in range(n)]
        kw['Z0TL'] = v
        Z0 = pl([i * L / (n - 1) for i in range(n)], v)
    elif what == 'Z0xy':
        v = [base(ctx, 'Z%d' % i) for i in range(n)]
        xs = [ctx.real('n0', 0, s=(0.05, .2))]
        for i in range(n - 1):
            xs.append(xs[-1] + ctx.real('n%d' % (i + 1), 0, s=(0.1, .4)))
        kw['Z0TL'] = [xs, v]
        Z0 = pl(xs, v)
    elif what == 'vrfun':
        z = kw['Z0TL'] = base(ctx, 'Z0')
        Z0 = lambda x: z
        a = ctx.real('a', 0, 1, s=(0.2, .9))
        kw['vr'] = lambda x: 1 / (1 + a * x)
        vr = lambda x: 1 / (1 + a * x)
    elif what == 'rfun':
        z = kw['Z0TL'] = base(ctx, 'Z0')
        Z0 = lambda x: z
        a = ctx.real('a', 0, s=(1, 9))
        kw['rTL'] = lambda w, x: a * (1 + x) * w
        r = lambda x: a * (1 + x) * w
    st = Stub(ctx, w, lambda w, x: r(x) + 1j * w * Z0(x) / (C0 * vr(x)),
              lambda w, x: 1j * w / (Z0(x) * C0 * vr(x)), L)
    st.install()
    try:
        TL = rfTRL(L=L, Zbase=Zb, dx=dx, **kw)
        S = TL.getS(f)
        V0, I0 = ctx.cplx('V0'), ctx.cplx('I0')
        xs, V, I = TL.solveVI(f, V0, I0)
        Vo, Io = TL.solveVI(f, V0)[1:]
        _, V_, I_ = TL.solveVI(f, I0=I0)
    finally:
        st.remove()
    ctx.true('two fundamental solutions', len(st.sols) == 2)
    s1, s2 = st.sols
    y1, y2 = s1[0], s2[0]
    for i in range(len(s1)):
        u1 = s1[i][0] + 1j * s1[i][1], s1[i][2] + 1j * s1[i][3]
        u2 = s2[i][0] + 1j * s2[i][1], s2[i][2] + 1j * s2[i][3]
        # the wanted solution is the combination with the given initial values
        A = np.array([[y1[0] + 1j * y1[1], y2[0] + 1j * y2[1]],
                      [y1[2] + 1j * y1[3], y2[2] + 1j * y2[3]]])
        c = np.linalg.solve(A, np.array([V0, I0]))
        ctx.eq('V', V[i], u1[0] * c[0] + u2[0] * c[1])
        ctx.eq('I', I[i], u1[1] * c[0] + u2[1] * c[1])
    ctx.eq('missing current is 0, missing voltage is 0', Vo + V_, V)
    ctx.eq('missing current is 0, missing voltage is 0', Io + I_, I)
    # at port 1 the current flows out, at port 2 it flows in
    a = np.array([V0 - Zb * I0, V[-1] + Zb * I[-1]])
    b = np.array([V0 + Zb * I0, V[-1] - Zb * I[-1]])
    ctx.eq('S', S @ a, b)
    ctx.raises('a varying line cannot be changed', ValueError, TL.set, L=2.)


def basics(ctx):
    Zb = base(ctx)
    L = ctx.real('L', 0, 1, s=(0.1, 1.))
    x0 = ctx.real('x0', s=(-1., 1.))
    p = ctx.choose('ports', [['a', 'b'], ['1', '2'], ['b', 'a']])
    TL = rfTRL(L=L, Zbase=Zb, ports=list(p), xpos=x0)
    ctx.true('ports', list(TL.ports) == p)
    ctx.true('number of ports', len(TL) == 2)
    ctx.eq('Zbase', TL.Zbase, Zb)
    ctx.eq('xpos', np.array(TL.xpos), np.array([x0, x0 + L]))
    ctx.eq('xpos list', np.array(rfTRL(L=L, xpos=[x0, 3.]).xpos), np.array([x0, 3.]))
    ctx.true('default ports', rfTRL().ports == ['1', '2'])
    f = freq(ctx)
    TL = rfTRL(L=L, Zbase=Zb, ports=list(p), xpos=x0, dx=300.)
    ctx.eq('port names do not matter', TL.getS(f), rfTRL(L=L, Zbase=Zb, dx=200.).getS(f))
    ctx.raises('unknown parameter', ValueError, rfTRL, L=L, ZTL=30.)
    ctx.raises('xpos of the wrong length', ValueError, rfTRL, L=L, xpos=[1., 2., 3.])


def cases(tier):
    out = []
    for kind in ('Z0', 'Z0 vr', 'Z0 epsr', 'Z0 LTL', 'Z0 CTL', 'Z0 rTL', 'Z0 vr rTL',
                 'rlgc'):
        out.append(('uniform %s' % kind, 'uniform', dict(kw=dict(kind=kind, dx=500.))))
    for dx in ('+', '-', 3):
        out.append(('uniform dx=%r' % dx, 'uniform',
                    dict(kw=dict(kind='Z0 vr', dx=dx))))
    out.append(('matched', 'matched', {}))
    for kind in ('Z0', 'Z0 rTL', 'rlgc'):
        out.append(('cascade %s' % kind, 'cascade', dict(kw=dict(kind=kind))))
    for dx in (500., -0.3, 72):
        for g in (0, 1):
            out.append(('zero %r %d' % (dx, g), 'zero', dict(kw=dict(dx=dx, given=g))))
    out.append(('several', 'several', dict(kw=dict(dx=500.))))
    for how in ('params', 'set', 'solve'):
        out.append(('changing ' + how, 'changing', dict(kw=dict(how=how))))
    for what, dx, n in (('Z0list', '+', 2), ('Z0list', '+', 3), ('Z0xy', 500., 2),
                        ('Z0xy', 500., 3), ('vrfun', '+', 0), ('rfun', '+', 0),
                        ('Z0list', '-', 2)):
        out.append(('varying %s dx=%s n=%d' % (what, dx, n), 'varying',
                    dict(kw=dict(what=what, dx=dx, n=n))))
    out.append(('basics', 'basics', {}))
    return out
