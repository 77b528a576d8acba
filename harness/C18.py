"""rfObject: results depend on the present table only"""
import copy
import itertools
import pickle
import numpy as np
from pyRFtk import rfObject
from engine.text import valtoken
from hxutil import *

META = dict(
    bounds='a table of 2-3 frequencies of a 2-port (arbitrary complex S), interpolated as '
           'real and imaginary parts; all sequences of up to 3 '
           '(thorough: 4) of 11 operations; frequencies, matrices and impedances symbolic',
    assumptions=['different frequencies in a table'])


def lagrange(x, ys, v):
    t = 0
    for i in range(len(x)):
        w = 1.
        for j in range(len(x)):
            if j != i:
                w = w * (v - x[j]) / (x[i] - x[j])
        t = t + ys[i] * w
    return t


class State:
    def __init__(self, ctx, form):
        self.ctx, self.form = ctx, form
        self.n = 0
        self.last = 0.
        self.fs = [self.newf(), self.newf()]
        self.Ss = [self.newS(), self.newS()]
        self.Z = 50.
        self.ports = ['d', 'a']
        self.xpos = [1., 2.]
        self.others = []
        kw = dict(ports=list(self.ports), xpos=list(self.xpos), Zbase=self.Z, interp='RI')
        self.o = rfObject(**kw)
        if form == 'set':
            self.o.setS(self.fs[1], self.Ss[1])
            self.o.setS(self.fs[0], self.Ss[0])
            self.o.getS((self.fs[0] + self.fs[1]) / 2)
        else:
            self.o.setS(self.fs, self.Ss)

    def newf(self):
        self.n += 1
        self.last = self.last + self.ctx.real('f%d' % self.n, 0, s=(1e7, 2e7))
        return self.last

    def newS(self):
        self.n += 1
        return self.ctx.cmat('S%d_' % self.n, 2)

    def do(self, op):
        o = self.o
        if op == 'G':        # at a frequency of the table, another reference
            o.getS(self.fs[0], Zbase=20.)
        elif op == 'I':      # between
            o.getS((self.fs[0] + 2 * self.fs[1]) / 3)
        elif op == 'A':      # another frequency
            f, S = self.newf(), self.newS()
            o.setS(f, S)
            self.fs, self.Ss = self.fs + [f], self.Ss + [S]
        elif op == 'E':      # an entry is replaced
            S = self.newS()
            o[1] = (self.fs[1], S)
            self.Ss[1] = S
        elif op == 'F':      # an entry is replaced, beyond the others
            f, S = self.newf(), self.newS()
            o[0] = (f, S)
            self.fs = self.fs[1:] + [f]
            self.Ss = self.Ss[1:] + [S]
            # the order of the entries of the table is known again after sorting
            o._sort_fs_()
        elif op == 'P':      # alphabetic order of the ports
            o.sortports()
            self.order(sorted(self.ports))
        elif op == 'Q':
            # the other order, by name (not all of them need to be given)
            p = self.ports[::-1]
            o.sortports(p[:1])
            self.order(p)
        elif op == 'Z':
            Z = {50.: 20., 20.: 50.}[self.Z]
            o.convert2newZbase(Z)
            I = np.eye(2)
            self.Ss = [np.linalg.solve(
                ((I + S) + Z / self.Z * (I - S)).T, ((I + S) - Z / self.Z * (I - S)).T).T
                for S in self.Ss]
            self.Z = Z
        elif op == 'R':      # another table from a touchstone
            self.fs = [self.newf(), self.newf(), self.newf()]
            self.Ss = [self.newS(), self.newS(), self.newS()]
            self.xpos = [0., 0.]
            rows = [[valtoken(f)] + [valtoken(v) for z in (S[0, 0], S[1, 0], S[0, 1], S[1, 1])
                                     for v in (z.real, z.imag)]
                    for f, S in zip(self.fs, self.Ss)]
            o.read_tsf('\n'.join(['# Hz S RI R %d' % self.Z] + [' '.join(r) for r in rows]),
                       Zbase=self.Z, funit='Hz')
        elif op == 'C':
            self.keep(o)
            self.o = o.copy()
        elif op == 'D':
            self.keep(o)
            self.o = copy.deepcopy(o)
        elif op == 'K':
            d = o.__getstate__()
            self.ctx.true('plain types', all(isinstance(d[k], list) for k in
                                             ('fs', 'Ss', 'Zcs', 'Gms')))
            self.o = rfObject()
            self.o.__setstate__(d)

    def keep(self, o):
        """the copied object must not change any more"""
        self.others.append((o, list(self.fs), list(self.Ss), list(self.ports),
                            list(self.xpos), self.Z))

    def order(self, p):
        k = [self.ports.index(q) for q in p]
        self.ports = [self.ports[i] for i in k]
        self.xpos = [self.xpos[i] for i in k]
        self.Ss = [S[k, :][:, k] for S in self.Ss]

    def check(self):
        for o, fs, Ss, ports, xpos, Z in self.others + [
                (self.o, self.fs, self.Ss, self.ports, self.xpos, self.Z)]:
            self.compare(o, fs, Ss, ports, xpos, Z)

    def compare(self, o, fs, Ss, ports, xpos, Z):
        ctx = self.ctx
        ctx.true('ports', list(o.ports) == ports)
        ctx.true('positions', list(o.xpos) == xpos)
        ctx.true('reference', o.Zbase == Z)
        v = (fs[0] + 2 * fs[1]) / 3
        ctx.eq('between', o.getS(v), lagrange(fs, Ss, v))
        for f, S in zip(fs, Ss):
            ctx.eq('table', o.getS(f), S)
        ctx.true('number of entries', len(list(o)) == len(fs))
        for k, (f, S) in enumerate(zip(fs, Ss)):
            ctx.eq('entry', o[k][0], f)
            ctx.eq('entry', o[k][1], S)


def history(ctx, ops, form='all'):
    s = State(ctx, form)
    for op in ops:
        s.do(op)
    s.check()


def permuted(ctx, N, perm, how, late):
    """ports in any order"""
    names = ['d', 'a', 'c', 'b'][:N]
    f = ctx.real('f', 1., s=(1e7, 2e7))
    f2 = f + ctx.real('df', 1., s=(1e7, 2e7))
    S, T = ctx.cmat('S', N), ctx.cmat('T', N)
    x = [1. + i * i for i in range(N)]
    o = rfObject(ports=list(names), xpos=list(x), Zbase=50., interp='RI')
    if late == 2:
        o.setS(f, S)
        o.setS(f2, T)
    else:
        o.setS([f, f2], [S, T])
    if late:
        o.getS((f + f2) / 2)
    new = [names[i] for i in perm]
    if how == 'all':
        o.sortports(list(new))
    elif how == 'some':
        # the others stay in alphabetic or present order behind
        o.sortports(new[:1])
        new = list(o.ports)
        ctx.true('order', new[0] == names[perm[0]] and sorted(new) == sorted(names))
    elif how == 'twice':
        o.sortports(list(new))
        o.sortports(list(names[::-1]))
        new = names[::-1]
    else:
        o.sortports()
        new = sorted(names)
    k = [names.index(p) for p in new]
    ctx.true('ports', list(o.ports) == new)
    ctx.true('positions', list(o.xpos) == [x[i] for i in k])
    for g, M in ((f, S), (f2, T), ((f + f2) / 2, (S + T) / 2)):
        R = o.getS(g)
        for i in range(N):
            for j in range(N):
                ctx.eq('from %s to %s' % (new[j], new[i]), R[i, j], M[k[i], k[j]])


def pickled(ctx):
    """through pickle itself (numbers)"""
    S = np.array([[[.1, .2j], [.3, .4]], [[.5, .6j], [.7j, .8]]])
    o = rfObject(ports=['a', 'b'], Zbase=20., interp='RI')
    o.setS([2e6, 1e6], S)
    a = ctx.real('a', 0, 1, s=(0., 1.))
    p = pickle.loads(pickle.dumps(o)) if not hasattr(a, 'asreal') else None
    if p is None:
        p = rfObject()
        p.__setstate__(o.__getstate__())
    f = 1e6 * (1 + a)
    ctx.eq('interpolated', p.getS(f), S[1] + (S[0] - S[1]) * a)


def phases(ctx, interp, order, how, seg):
    """magnitudes and angles (numbers) of a table in any order, used or not, and copied"""
    n = len(order)
    A = [.25, 1., 1.75, 2.5][:n]        # half turns at 1, 2, .. MHz
    M = [.875, .5, .75, .25][:n]
    fs = [1e6 * (k + 1) for k in order]
    S = [np.array([[M[k] * np.exp(1j * np.pi * A[k]), .5j],
                   [.5j, M[k] * np.exp(-1j * np.pi * A[k])]])
         for k in order]
    kw = dict(ports=['a', 'b'], Zbase=20., interp=interp, interpkws=dict(kind=1))

    def make():
        o = rfObject(**kw)
        o.setS(list(fs), [T.copy() for T in S])
        return o

    p, new = make(), rfObject(**kw)
    new.setS([1e6 * (k + 1) for k in range(n)], [S[order.index(k)] for k in range(n)])
    a = ctx.real('a', 0, 1, s=(.2, .7))
    for h in how:
        if h == 'u':         # used
            p.getS(1.3e6)
        elif h == 'c':
            p = p.copy()
        elif h == 'k':
            d = p.__getstate__()
            if not ctx.symbolic:
                d = pickle.loads(pickle.dumps(d))
            p = rfObject()
            p.__setstate__(d)
    f = 1e6 * (1 + seg + a)
    ctx.eq('as in order', p.getS(f), new.getS(f), tol=1e-6)


OPS = 'GIAEPQZCDK'


def cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for ops in itertools.product(OPS, repeat=n):
            o = ''.join(ops)
            # evaluations and copies in sequence add nothing
            if n >= 3 and any(a + b in o for a in 'GICDK' for b in 'GICDK'
                              if not (a == 'I' and b in 'CDK')):
                continue
            if o.count('Z') > 2 or o.count('A') > 2:
                continue
            if o[-1] in 'GI':
                continue
            if n >= 3 and o[0] != 'I' and tier == 'quick':
                continue
            for form in ('all', 'set'):
                if n >= 3 and form == 'set':
                    continue
                yield '%s %s' % (o, form), 'history', dict(kw=dict(ops=o, form=form))
    for o in ('F', 'IF', 'AF', 'IAF', 'FI', 'FPE'):
        yield o, 'history', dict(kw=dict(ops=o))
    for o in ('R', 'IR', 'GR', 'AR', 'RA', 'IRA', 'IRI', 'RIP', 'RPE', 'RZ', 'ICR', 'IRC', 'IRK',
              'ZIR', 'PIR'):
        for form in ('all', 'set'):
            yield '%s %s' % (o, form), 'history', dict(kw=dict(ops=o, form=form))
    for perm in itertools.permutations(range(3)):
        for how in ('all', 'some', 'twice'):
            for late in (0, 1, 2):
                yield 'ports %s %s %d' % (perm, how, late), 'permuted', dict(
                    kw=dict(N=3, perm=perm, how=how, late=late))
    for N in (2, 3, 4):
        yield 'ports %d' % N, 'permuted', dict(kw=dict(N=N, perm=tuple(range(N)), how='',
                                                       late=1))
    for perm in itertools.permutations(range(4)) if tier != 'quick' else \
            ((1, 2, 3, 0), (3, 0, 1, 2), (1, 0, 3, 2), (2, 3, 1, 0)):
        yield 'ports %s' % (perm,), 'permuted', dict(kw=dict(N=4, perm=perm, how='all',
                                                             late=0))
    yield 'pickle', 'pickled', {}
    for interp in ('MA', 'dB', 'RI'):
        for order in ((0, 2, 1), (2, 1, 0), (1, 2, 0), (2, 0, 3, 1)):
            for how in ('', 'u', 'k', 'uk', 'ku', 'c', 'ukc', 'kck'):
                yield 'phases %s %s %s' % (interp, order, how), 'phases', dict(
                    kw=dict(interp=interp, order=order, how=how, seg=1))
