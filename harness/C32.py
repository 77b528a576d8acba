"""an evaluation at many frequencies is the evaluation at each of them"""
import numpy as np
from pyRFtk import rfCircuit, rfObject, rfBase
from hxutil import *
from hxobj import *

META = dict(
    bounds='objects of every class, circuits of up to 4 of them nested up to 2 levels; 1 to 4 '
           'frequencies in any order, repeated or not, given as lists, tuples or arrays, before '
           'and after other evaluations; all values, frequencies and impedances symbolic',
    assumptions=['the circuit equations are non singular', 'lines up to 1 m'])

FORMS = {
    'list': lambda F: list(F),
    'tuple': lambda F: tuple(F),
    'array': lambda F: np.array(F),
    'reversed': lambda F: np.array(F)[::-1],
    'slice': lambda F: np.array([F[0], 1., F[1], 2., F[2], 3.])[::2],
}
ORDERS = {'all': [0, 1, 2], 'one': [1], 'repeated': [0, 0, 1, 0], 'decreasing': [2, 1, 0],
          'none': []}


def freqs(ctx, n=3):
    r, f = [], 0.
    for i in range(n):
        f = f + ctx.real('f%d' % i, 1e6, s=(1e7, 3e7))
        r.append(f)
    return r


def table(ctx, N, F, n):
    return [ctx.cmat('%s%d' % (n, i), N) for i in range(len(F))]


class Things:
    """makes a new object of the kind asked for, always with the same values"""

    def __init__(self, ctx, F, Z):
        self.ctx, self.F, self.Z = ctx, F, Z
        self.M, self.tables = {}, {}

    def elem(self, k, what, Z=None):
        return self.M.setdefault(k, Maker(self.ctx, k))(what, self.Z if Z is None else Z)

    def tab(self, k, N):
        if k not in self.tables:
            self.tables[k] = table(self.ctx, N, self.F, k)
        return self.tables[k]

    def base(self, k, N, Z=None):
        # not in order
        S, F = self.tab(k, N), self.F
        i = list(range(len(F)))
        i = i[1:] + i[:1]
        return rfBase(Ss=[S[j] for j in i], fs=[F[j] for j in i],
                      ports=['p%d' % j for j in range(N)], Zbase=self.Z if Z is None else Z)

    def __call__(self, what):
        if what == 'given':
            return self.base('S', 2)
        if what == 'given one':
            return self.base('S', 1)
        if what in ('table', 'interpolated'):
            S = self.tab('S', 2)
            o = rfObject(ports=['p0', 'p1'], Zbase=self.Z, interp='RI', interpkws=dict(kind=1))
            if what == 'table':
                o.setS(list(self.F), list(S))
            else:
                o.setS([self.F[0] / 2, 2. * self.F[2]], S[:2])
            return o
        if what in CIRC:
            return self.circuit(what)
        return self.elem('', what)

    def circuit(self, what):
        C = rfCircuit(Zbase=self.Z)
        if what == 'circuit':
            C.addblock('a', self.elem('a', 'line'))
            C.addblock('b', self.elem('b', 'lossy ladder'))
            C.connect('a.2', 'b.s', 'T')
        elif what == 'given circuit':
            C.addblock('a', self.base('a', 2))
            C.addblock('b', self.base('b', 2))
            C.connect('a.p1', 'b.p0')
        elif what == 'terminated':
            C.addblock('a', self.base('a', 2))
            C.addblock('b', self.elem('b', 'series'))
            C.connect('a.p1', 'b.s', 'T')
            C.terminate('b.p', RC=.25)
        elif what == 'array':
            C.addblock('a', self.elem('a', 'series'))
            C.addblock('b', np.array([[.25, .5j], [.5, -.25j]]), ports=['x', 'y'])
            C.connect('a.p', 'b.x')
        elif what == 'nested':
            D = self.circuit('terminated')
            C.addblock('D', D)
            C.addblock('c', self.base('c', 2))
            C.connect('D.T', 'c.p0', 'X')
        elif what == 'shared':
            a = self.base('a', 2)
            C.addblock('a', a)
            C.addblock('b', a)
            C.addblock('c', self.elem('c', 'shunt resistor'))
            C.connect('a.p1', 'c.s')
            C.connect('b.p0', 'c.p')
        return C


HEAVY = ['lossy line', 'leaky line', 'circuit', 'nested']
CIRC = ['circuit', 'given circuit', 'terminated', 'array', 'nested', 'shared']
ALL = ['given', 'given one', 'table', 'interpolated'] + LOSSLESS + LOSSY[:4] + CIRC


def many(ctx, what, order, form, how='own'):
    F = freqs(ctx)
    Z = ctx.real('Z', 1, s=(10., 90.))
    kw = {} if how == 'own' else dict(Zbase=ctx.real('Zr', 1, s=(10., 90.)))
    if how == 'same':
        kw = dict(Zbase=Z)
    T = Things(ctx, F, Z)
    o = T(what)
    q = FORMS[form]([F[i] for i in ORDERS[order]])
    idx = ORDERS[order][::-1] if form == 'reversed' else ORDERS[order]
    one = {i: T(what).getS(F[i], **kw) for i in set(idx)}
    N = len(o)
    for rep in (0, 1):
        if rep and what in HEAVY:
            break
        S = o.getS(q, **kw)
        ctx.true('number', len(S) == len(idx))
        for k, i in enumerate(idx):
            ctx.eq('frequency', S[k], one[i])
        # as an array: frequency, row, column
        for r in range(N):
            for c in range(N):
                for x, i in zip(S[:, r, c], idx):
                    ctx.eq('element', x, one[i][r, c])
        if rep == 0:
            # in between others
            ctx.eq('one', o.getS(F[0], **kw), T(what).getS(F[0], **kw))
            if what not in ('given', 'given one') and 'given' not in what:
                o.getS(F[-1])
    # the frequencies are left as they were
    ctx.eq('given frequencies', np.array(list(q)), np.array([F[i] for i in idx]))


def solved(ctx, what):
    """solutions between evaluations at several frequencies"""
    F = freqs(ctx, 2)
    F = F + [F[1]]
    Z = ctx.real('Z', 1, s=(10., 90.))
    T = Things(ctx, F, Z)
    C = T(what)
    E = {p: (1. - .5j * i) for i, p in enumerate(C.ports)}

    def compare(label, f):
        A, B = C.Solution(f, E), T(what).Solution(f, E)
        ctx.true('nodes', sorted(A) == sorted(B))
        for n in A:
            ctx.eq(label, np.array(A[n]), np.array(B[n]))
    C.getS([F[0], F[1]])
    compare('first', F[0])
    C.getS([F[1], F[0]], Zbase=2. * Z)
    compare('last', F[0])
    compare('other', F[1])
    S = C.getS([F[0], F[1], F[0]])
    for s, f in zip(S, [F[0], F[1], F[0]]):
        ctx.eq('S-matrix', s, T(what).getS(f))


def cases(tier):
    out = []
    forms = [('all', 'list'), ('decreasing', 'tuple'), ('repeated', 'array'), ('one', 'list'),
             ('all', 'reversed'), ('all', 'slice'), ('one', 'array')]
    for n, w in enumerate(ALL):
        for k, (o, f) in enumerate(forms):
            for h in ('own', 'other', 'same'):
                if h == 'other' and w in ('circuit', 'nested') and (k or w == 'nested'):
                    continue                             # nested: on its own impedance only
                if tier == 'quick' and (n + k) % 3 and (k or h == 'same'):
                    continue
                out.append(('%s %s %s %s' % (w, o, f, h), 'many',
                            dict(kw=dict(what=w, order=o, form=f, how=h))))
    for w in CIRC:
        if w != 'array':
            out.append(('solved ' + w, 'solved', dict(kw=dict(what=w))))
    return out
