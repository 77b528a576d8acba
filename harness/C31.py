"""energy is conserved and reciprocal elements make reciprocal networks"""
import numpy as np
from pyRFtk import rfCircuit, rfObject, rfBase, ConvertGeneral
from hxutil import *
from hxobj import *

META = dict(
    bounds='every element class and circuits of up to 5 of them, nested up to 2 levels, with up '
           'to 2 terminations; any values, frequency, excitation and (complex) impedances',
    assumptions=['the circuit equations are non singular', 'lines up to 1 m'])


def H(M):
    return np.conj(np.transpose(M))


def unitary(ctx, label, S):
    ctx.eq(label, H(S) @ S, np.eye(len(S)), tol=1e-6)


def symmetric(ctx, label, S):
    ctx.eq(label, S, np.transpose(S))


def power(V, I):
    return np.real(V * np.conj(I))


def absorbed(M, what, V, I):
    """the power absorbed by an element with these voltages and currents"""
    if what in LOSSLESS:
        return 0.
    P = 0.
    if what in ('resistor', 'lossy ladder'):
        P = P + M.R() * power(I[0], I[0])
    if what in ('shunt resistor', 'lossy ladder'):
        P = P + power(V[1], V[1]) / M.R('Rp')
    return P


def element(ctx, what):
    Z, f = ctx.real('Z', 0, s=(10., 90.)), ctx.real('f', 0, s=(2e7, 6e7))
    Zr = ctx.real('Zr', 0, s=(10., 90.))
    M = Maker(ctx)
    for Zk in (None, Zr):
        o = M(what, Z)
        S = o.getS(f) if Zk is None else o.getS(f, Zbase=Zk)
        symmetric(ctx, 'reciprocal', S)
        if what in LOSSLESS:
            unitary(ctx, 'lossless', S)
        elif 'line' not in what:
            Zk = Z if Zk is None else Zk
            a = np.array([ctx.cplx('a%d%s' % (i, 'o' if Zk is Z else 'r'))
                          for i in range(len(o))])
            b = S @ a
            V, I = a + b, (a - b) / Zk
            ctx.eq('absorbed', sum(power(v, i) for v, i in zip(V, I)), absorbed(M, what, V, I))


CIRCUITS = {
    # name: blocks, operations, resistive parts
    'ladder': (dict(a='series', b='line', c='shunt'), [('a.p', 'b.1'), ('b.2', 'c.s')], {}),
    'junction': (dict(a='line', b='series', c='arc'), [('a.2', 'b.s', 'c.1', 'T')], {}),
    'stub': (dict(a='series', b='line', c='shunt'), [('a.p', 'b.1', 'c.s')], {'b.2': dict(Z=0.)}),
    'open stub': (dict(a='series', b='line'), [('a.p', 'b.1', 'in')], {'b.2': dict(Y=0.)}),
    'hybrid': (dict(a='hybrid', b='line', c='series'), [('a.B1', 'b.1'), ('a.B2', 'c.s')],
               {'b.2': dict(Z=0.)}),
    'reactive': (dict(a='series', b='shunt'), [('a.p', 'b.s')], {'b.p': 'X'}),
    'susceptance': (dict(a='series', b='shunt'), [('a.p', 'b.s', 'T')], {'b.p': 'B'}),
    'resistive': (dict(a='resistor', b='line', c='shunt resistor'),
                  [('a.p', 'b.1'), ('b.2', 'c.s')], {}),
    'loaded': (dict(a='lossy ladder', b='series'), [('a.p', 'b.s', 'T')], {'b.p': 'R'}),
    'two loads': (dict(a='hybrid', b='series'), [('a.A1', 'b.s')], {'a.B1': 'R', 'a.A2': 'G'}),
}


def termination(ctx, n, t):
    if isinstance(t, dict):
        return t
    x = ctx.real(n, s=(2., 90.)) if t in 'XB' else ctx.real(n, 0, s=(2., 90.))
    return {'X': dict(Z=1j * x), 'B': dict(Y=.01j * x), 'R': dict(Z=x), 'G': dict(Y=.01 * x)}[t]


def make(ctx, name, M, Z, Zb=None):
    """Zb: of the blocks"""
    blocks, ops, terms = CIRCUITS[name]
    C = rfCircuit(Zbase=Z)
    for k, what in blocks.items():
        m = M.setdefault(k, Maker(ctx, k))
        C.addblock(k, m(what, Z if Zb is None else Zb))
    for p in ops:
        C.connect(*p)
    for n, t in terms.items():
        C.terminate(n, **termination(M['ctx'], 't' + n.replace('.', ''), t))
    return C


class Once:
    """symbols by name"""

    def __init__(self, ctx):
        self.ctx, self.d = ctx, {}

    def real(self, n, *a, **k):
        if n not in self.d:
            self.d[n] = self.ctx.real(n, *a, **k)
        return self.d[n]


def lossless(name):
    b, _, t = CIRCUITS[name]
    return all(w in LOSSLESS for w in b.values()) and not any(v in ('R', 'G') for v in t.values()
                                                             if isinstance(v, str))


def circuit(ctx, name, nest=False):
    """S-matrix"""
    Z, f = ctx.real('Z', 0, s=(10., 90.)), ctx.real('f', 0, s=(2e7, 6e7))
    Zr = ctx.real('Zr', 0, s=(10., 90.))
    M = dict(ctx=Once(ctx))
    C = make(ctx, name, M, Z)
    if nest:
        D = rfCircuit(Zbase=Zr)
        D.addblock('I', C)
        m = Maker(ctx, 'x')
        D.addblock('x', m('series', Z), ports=['x1', 'x2'])
        D.connect('I.' + C.ports[-1], 'x.x1')
        C = D
    S = C.getS(f)
    symmetric(ctx, 'reciprocal', S)
    if lossless(name):
        unitary(ctx, 'lossless', S)
    S = C.getS(f, Zbase=2. * Z)
    symmetric(ctx, 'reciprocal', S)
    if lossless(name):
        unitary(ctx, 'lossless', S)


def balance(ctx, name, nest=False, Zr=None):
    """what enters at the ports is what the resistors absorb"""
    Z, f = ctx.real('Z', 0, s=(10., 90.)), ctx.real('f', 0, s=(2e7, 6e7))
    M = dict(ctx=Once(ctx))
    C = make(ctx, name, M, Z)
    pre = ''
    if nest:
        D = rfCircuit(Zbase=Z)
        D.addblock('I', C)
        C, pre = D, 'I.'
    Zr = ctx.real('Zr', 0, s=(10., 90.)) if Zr else None
    E = {p: ctx.cplx('E' + p.replace('.', '')) for p in C.ports} if len(C.ports) == 1 else {
        p: (1. + .5j * i) * ctx.real('E' + p.replace('.', ''), s=(-9., 9.))
        for i, p in enumerate(C.ports)}
    sol = C.Solution(f, E) if Zr is None else C.Solution(f, E, Zr)
    Pin = sum(power(sol[p][0], sol[p][1]) for p in C.ports)
    P = 0.
    blocks, ops, terms = CIRCUITS[name]
    for k, what in blocks.items():
        nodes = [n for n in sol if n.startswith(pre + k + '.')]
        V, I = [sol[n][0] for n in nodes], [sol[n][1] for n in nodes]
        if what in LOSSLESS or what in LOSSY[:3]:
            P = P + absorbed(M[k], what, V, I)
            ctx.eq('element', sum(power(v, i) for v, i in zip(V, I)), absorbed(M[k], what, V, I))
        else:
            P = P + sum(power(v, i) for v, i in zip(V, I))
    for n in terms:
        V, I = sol[pre + n][:2]
        P = P - power(V, I)
        if terms[n] == 'R':
            z = M['ctx'].d['t' + n.replace('.', '')]
            ctx.eq('load', -power(V, I), power(V, V) / z)
        elif terms[n] == 'G':
            z = M['ctx'].d['t' + n.replace('.', '')]
            ctx.eq('load', -power(V, I), .01 * z * power(V, V))
        else:
            ctx.eq('load', power(V, I), 0.)
    ctx.eq('balance', Pin, P)


def reference(ctx, N, kind):
    """a lossless network stays so on complex reference impedances (generalized waves)"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    X = np.empty((N, N), dtype=complex)
    for i in range(N):
        for j in range(i, N):
            X[i, j] = X[j, i] = 1j * ctx.real('x%d%d' % (i, j), s=(-90., 90.))
    S = np.linalg.inv(X + Z * np.eye(N)) @ (X - Z * np.eye(N))
    unitary(ctx, 'given', S)
    z = [ctx.cplx('z%d' % i, s=(10., 60.)) for i in range(N)]
    for u in z:
        ctx.assume(np.real(u) >= 1.)
    z2 = z[0] if kind == 'one' else z
    S1 = ConvertGeneral(z2, S, Z, 'V', 'G')
    unitary(ctx, 'lossless', S1)
    symmetric(ctx, 'reciprocal', S1)
    r = [ctx.real('r%d' % i, 0, s=(10., 90.)) for i in range(N)]
    S2 = ConvertGeneral(r, S1, z2, 'G', 'P')
    unitary(ctx, 'lossless', S2)
    symmetric(ctx, 'reciprocal', S2)
    ctx.eq('back', ConvertGeneral(Z, S2, r, 'P', 'V'), S)


def table(ctx, interp, N):
    """a table of reciprocal matrices is reciprocal between its frequencies"""
    f = ctx.real('f', 1e6, s=(2e7, 6e7))
    f2 = f + ctx.real('df', 1e6, s=(1e6, 2e7))
    Z, Zr = ctx.real('Z', 0, s=(10., 90.)), ctx.real('Zr', 0, s=(10., 90.))
    A = []
    for k in 'ab':
        S = ctx.cmat(k, N)
        for i in range(N):
            for j in range(i):
                S[i, j] = S[j, i]
        A.append(S)
    o = rfObject(ports=['p%d' % i for i in range(N)], Zbase=Z, interp=interp,
                 interpkws=dict(kind=1))
    o.setS([f, f2], A)
    q = ctx.real('q', 0, 1, s=(.1, .9))
    symmetric(ctx, 'reciprocal', o.getS(f + q * (f2 - f)))
    if interp == 'RI':
        symmetric(ctx, 'reciprocal', o.getS(f + q * (f2 - f), Zbase=Zr))


def cases(tier):
    out = []
    for w in LOSSLESS + LOSSY:
        out.append(('element ' + w, 'element', dict(kw=dict(what=w))))
    for n in CIRCUITS:
        out.append(('circuit ' + n, 'circuit', dict(kw=dict(name=n))))
        out.append(('nested ' + n, 'circuit', dict(kw=dict(name=n, nest=True))))
        out.append(('balance ' + n, 'balance', dict(kw=dict(name=n))))
        out.append(('balance nested ' + n, 'balance', dict(kw=dict(name=n, nest=True))))
        out.append(('balance reference ' + n, 'balance', dict(kw=dict(name=n, Zr=1))))
    for N in (1, 2) + ((3,) if tier == 'thorough' else ()):
        for k in ('one', 'each'):
            out.append(('reference %d %s' % (N, k), 'reference', dict(kw=dict(N=N, kind=k))))
    for i in ('RI', 'MA', 'dB'):
        out.append(('table ' + i, 'table', dict(kw=dict(interp=i, N=2))))
    return out
