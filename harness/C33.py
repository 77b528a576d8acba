"""the own reference impedance of an object is only the default one for its S-matrix"""
import numpy as np
from pyRFtk import rfCircuit, rfObject, rfBase, ConvertGeneral
from hxutil import *
from hxobj import *

META = dict(
    bounds='objects of every class (but couplers, which are made for their impedance), circuits '
           'of up to 4 of them nested up to 2 levels and terminated, each built twice with '
           'different own impedances; all values, frequencies, excitations and impedances',
    assumptions=['the circuit equations are non singular', 'lines up to 1 m'])


class Things:
    """makes the same object on any own impedance"""

    def __init__(self, ctx, f, Z):
        self.ctx, self.f, self.Z = ctx, f, Z
        self.M, self.tables = {}, {}

    def elem(self, k, what, Zb):
        return self.M.setdefault(k, Maker(self.ctx, k))(what, Zb)

    def on(self, S, Zb):
        """the matrix S (on self.Z) on Zb, without the package"""
        N = len(S)
        g = (Zb - self.Z) / (Zb + self.Z)
        I = np.eye(N)
        return np.linalg.inv(I - g * S) @ (S - g * I)

    def tab(self, k, N):
        if k not in self.tables:
            self.tables[k] = self.ctx.cmat(k, N)
        return self.tables[k]

    def base(self, k, N, Zb):
        return rfBase(Ss=[self.on(self.tab(k, N), Zb)], fs=[self.f],
                      ports=['p%d' % j for j in range(N)], Zbase=Zb)

    def __call__(self, what, Zs):
        """Zs: function giving the impedance of each object"""
        if what == 'given':
            return self.base('S', 2, Zs('S'))
        if what in ('table', 'interpolated'):
            o = rfObject(ports=['p0', 'p1'], Zbase=Zs('S'))
            o.setS([self.f, 2. * self.f], [self.on(self.tab(k, 2), Zs('S')) for k in 'ST'])
            return o
        if what in CIRC:
            return self.circuit(what, Zs)
        return self.elem('', what, Zs(''))

    def circuit(self, what, Zs, top='C'):
        C = rfCircuit(Zbase=Zs(top))
        if what == 'ladder':
            C.addblock('a', self.elem('a', 'line', Zs('a')))
            C.addblock('b', self.elem('b', 'shunt resistor', Zs('b')))
            C.connect('a.2', 'b.s')
        elif what == 'lumped':
            C.addblock('a', self.elem('a', 'series', Zs('a')))
            C.addblock('b', self.elem('b', 'lossy ladder', Zs('b')))
            C.connect('a.p', 'b.s', 'T')
            C.terminate('b.p', Z=self.elemval('Zl'))
        elif what == 'given circuit':
            C.addblock('a', self.base('a', 2, Zs('a')))
            C.addblock('b', self.base('b', 2, Zs('b')))
            C.connect('a.p1', 'b.p0')
        elif what == 'junction':
            C.addblock('a', self.base('a', 2, Zs('a')))
            C.addblock('b', self.elem('b', 'arc', Zs('b')))
            C.addblock('c', self.elem('c', 'series', Zs('c')))
            C.connect('a.p1', 'b.' + b_port(C), 'c.s', 'T')
            C.terminate('c.p', Y=.01)
        elif what == 'nested':
            C.addblock('D', self.circuit('lumped', Zs, 'D'))
            C.addblock('c', self.elem('c', 'series', Zs('c')))
            C.connect('D.T', 'c.p', 'X')
        elif what == 'nested given':
            C.addblock('D', self.circuit('given circuit', Zs, 'D'))
            C.addblock('c', self.elem('c', 'line', Zs('c')))
            C.connect('D.b.p1', 'c.1')
        return C

    def elemval(self, n):
        if n not in self.tables:
            self.tables[n] = self.ctx.real(n, 0, s=(5., 90.))
        return self.tables[n]


def b_port(C):
    return C.blocks['b']['object'].ports[0]


CIRC = ['ladder', 'lumped', 'given circuit', 'junction', 'nested', 'nested given']
SINGLE = ['given', 'table', 'series', 'shunt', 'lossless ladder', 'line', 'LC line', 'arc',
          'resistor', 'shunt resistor', 'lossy ladder', 'lossy line']


def impedances(ctx, mode):
    Z = ctx.real('Z', 1, s=(10., 90.))
    Zr = ctx.real('Zr', 1, s=(10., 90.))
    made = {}

    def Zs(k):
        if mode == 'all':
            k = ''
        elif mode == 'top' and k != 'C':
            return Z
        elif mode == 'blocks' and k == 'C':
            return Z
        if k not in made:
            made[k] = ctx.real('Zo' + k, 1, s=(10., 90.))
        return made[k]
    return Z, Zr, Zs


def scattering(ctx, what, mode='all'):
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z, Zr, Zs = impedances(ctx, mode)
    T = Things(ctx, f, Z)
    A, B = T(what, lambda k: Z), T(what, Zs)
    ctx.true('ports', list(A.ports) == list(B.ports))
    ctx.eq('own', B.getS(f), T(what, lambda k: Z).getS(f, Zbase=Zs('C' if what in CIRC else
                                                                   'S' if what in SINGLE[:2]
                                                                   else '')))
    ctx.eq('on another', A.getS(f, Zbase=Zr), B.getS(f, Zbase=Zr))
    ctx.eq('on the first', A.getS(f), B.getS(f, Zbase=Z))


def maxima(ctx, what, mode='all'):
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z, Zr, Zs = impedances(ctx, mode)
    T = Things(ctx, f, Z)
    A, B = T(what, lambda k: Z), T(what, Zs)
    E = {p: (1. - .5j * i) for i, p in enumerate(A.ports)}
    va, vb = A.maxV(f, E, Zr), B.maxV(f, E, Zr)
    ctx.eq('maximum', va[0] * va[0], vb[0] * vb[0])
    ctx.eq('default impedance', B.maxV(f, E)[0], A.maxV(f, E, Zs('C' if what in CIRC else 'S'
                                                          if what in SINGLE[:2] else ''))[0])


def solution(ctx, what, mode='all', given=True):
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z, Zr, Zs = impedances(ctx, mode)
    T = Things(ctx, f, Z)
    A, B = T(what, lambda k: Z), T(what, Zs)
    E = {p: (1. - .5j * i) for i, p in enumerate(A.ports)}
    Za = Zr if given else Zs('C')
    a = A.Solution(f, E, Za)
    b = B.Solution(f, E, Zr) if given else B.Solution(f, E)
    ctx.true('nodes', sorted(a) == sorted(b))
    for n in a:
        ctx.eq('voltage', a[n][0], b[n][0])
        ctx.eq('current', a[n][1], b[n][1])
        for i in (2, 3):
            # the waves: on the impedance asked for
            ctx.eq('waves', (b[n][2] + b[n][3]), b[n][0])
    for p in A.ports:
        ctx.eq('excited', b[p][2], E[p])
        ctx.eq('excited', b[p][0] + Za * b[p][1], 2. * E[p])


def removed(ctx, mode):
    """deembedding: the impedances of the parts do not matter"""
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z, Zr, Zs = impedances(ctx, mode)
    T = Things(ctx, f, Z)
    R = []
    for g in (lambda k: Z, Zs):
        C = rfCircuit(Zbase=g('C'))
        C.addblock('a', T.base('a', 2, g('a')))
        C.addblock('d', T.elem('d', 'series', g('d')))
        C.deembed({'d.s': 'new'}, {'d.p': 'a.p1'})
        R.append(C.getS(f, Zbase=Zr))
    ctx.eq('deembedded', R[0], R[1])


def placed(ctx, what, mode):
    """in a circuit"""
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z, Zr, Zs = impedances(ctx, mode)
    T = Things(ctx, f, Z)
    R = []
    for g in (lambda k: Z, Zs):
        C = rfCircuit(Zbase=Zr)
        o = T(what, g)
        C.addblock('o', o)
        C.addblock('x', np.array([[.25, .5], [.5, -.25j]]), ports=['i', 'o'])
        C.connect('o.' + o.ports[-1], 'x.i')
        R.append(C.getS(f))
    ctx.eq('in a circuit', R[0], R[1])


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for w in SINGLE:
        out.append(('S ' + w, 'scattering', dict(kw=dict(what=w))))
        if w in ('series', 'shunt', 'arc', 'resistor', 'shunt resistor'):
            out.append(('maximum ' + w, 'maxima', dict(kw=dict(what=w))))
        if deep or w != 'lossy line':
            out.append(('placed ' + w, 'placed', dict(kw=dict(what=w, mode='all'))))
    for w in CIRC:
        for m in ('all', 'top', 'blocks') + (('each',) if deep else ()):
            if w == 'nested given' and m == 'blocks' and not deep:
                continue
            out.append(('S %s %s' % (w, m), 'scattering', dict(kw=dict(what=w, mode=m))))
            if w != 'nested given' or m == 'top' or deep:
                out.append(('solution %s %s' % (w, m), 'solution', dict(kw=dict(what=w, mode=m))))
            out.append(('solution own %s %s' % (w, m), 'solution',
                        dict(kw=dict(what=w, mode=m, given=False))))
        out.append(('placed ' + w, 'placed', dict(kw=dict(what=w, mode='top'))))
    for m in ('all', 'top', 'blocks'):
        out.append(('removed ' + m, 'removed', dict(kw=dict(mode=m))))
    return out
