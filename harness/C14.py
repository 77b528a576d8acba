"""rfCircuit: results depend on the present network only, not on what was done before"""
import itertools
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL
from hxutil import *
from hxcirc import *

META = dict(
    bounds='a circuit of an inductor, a nested circuit with a resistor, a 2-port of '
           'arbitrary S and a termination; all sequences of 3 (thorough: 4) of 12 '
           'operations (evaluations, changes through every form of set, parameters, '
           'terminations, replacements), values, frequencies and impedances symbolic',
    assumptions=['the circuit equations are non singular'])


class State:
    """the circuit under test and the values it should have"""

    def __init__(self, ctx, fs, tag):
        self.ctx, self.f, self.tag = ctx, fs, tag
        self.n = 0
        self.last = dict(L=0., R=0., Z=0.)
        self.Z = 50.
        self.L, self.R, self.z = self.val('L'), self.val('R'), self.val('Z')
        self.D = np.array([[.5, .25j], [.125, -.25]])
        self.ext = True      # port d.2 is external
        self.C = self.fresh()

    def val(self, kind):
        """a new value, different from all earlier ones"""
        self.n += 1
        if kind == 'Z':          # the values of the terminations are fixed
            return 10. + 8. * self.n
        r = (1e-8, 1e-7) if kind == 'L' else (5., 30.)
        v = self.ctx.real('%s%s%d' % (self.tag, kind, self.n), 0, s=r)
        self.last[kind] = self.last[kind] + v
        return self.last[kind]

    def fresh(self):
        sub = rfCircuit(Zbase=self.Z, Id='sub')
        sub.addblock('r', rfRLC(Rs=self.R, Zbase=self.Z))
        sub.addblock('q', rfRLC(Rp=35., Zbase=self.Z))
        sub.connect('r.p', 'q.s')
        C = rfCircuit(Zbase=self.Z, Id='C')
        C.addblock('l', rfRLC(Ls=self.L, Zbase=self.Z))
        C.addblock('s', sub)
        C.addblock('d', rfBase(Ss=[self.D, self.D], fs=self.f, ports=['1', '2']))
        C.connect('l.p', 's.r.s')
        C.connect('s.q.p', 'd.1')
        if not self.ext:
            C.terminate('d.2', Z=self.z)
        return C

    # ------------------------------------------------------------ operations
    def do(self, op):
        k, a = op[0], op[1:]
        C = self.C
        if k == 'G':
            C.getS(self.f[int(a[0])], **({'Zbase': 20.} if 'z' in a else {}))
        elif k == 'F':
            C.getS(self.f[::-1])
        elif k == 'X':
            C.Solution(self.f[1], {p: 1. - .5j for p in self.ports()})
        elif k == 'L':
            self.L = v = self.val('L')
            if a == '1':
                r = C.set('l.Ls', v)
            elif a == '2':
                r = C.set(l={'Ls': v})
            elif a == '3':
                r = C.set(('l.Ls', v))
            elif a == '4':
                r = C.set({'l.Ls': v})
            self.ctx.true('set reports the change', r)
        elif k == 'R':
            self.R = v = self.val('R')
            if a == '1':
                C.set('s.r.Rs', v)
            elif a == '2':
                C.set(s={'r': {'Rs': v}})
            elif a == '3':
                C.set('s.r', {'Rs': v})
            elif a == 'L':
                self.L = u = self.val('L')
                C.set(('s.r', {'Rs': v}), ('l', {'Ls': u}))
            elif a in 'uvwx':
                # others are set to the values they have
                r = C.set(*{'u': [('s.r', {'Rs': v}), ('l', {'Ls': self.L})],
                            'v': [('l', {'Ls': self.L}), ('s.r', {'Rs': v})],
                            'w': [{'s': {'r': {'Rs': v}, 'q': {'Rp': 35.}}}],
                            'x': [('s', {'q': {'Rp': 35.}}), ('s.r.Rs', v), ('l.Ls', self.L),
                                  ('s.q.Rp', 35.)]}[a])
                self.ctx.true('set reports the change', r)
            elif a in 'yz':
                # several values of one element, one of them as it is
                o = C.blocks['s']['object'].blocks['r']['object']
                d = {'Rs': v, 'Cp': o.Cp} if a == 'y' else {'Cp': o.Cp, 'Rs': v, 'Ls': o.Ls}
                self.ctx.true('set reports the change', C.set('s.r', d))
            elif a == 'b':
                C.addblock('s.r', rfRLC(Rs=v, Zbase=self.Z))
        elif k == 'B':
            self.L = v = self.val('L')
            C.addblock('l', rfRLC(Ls=v, Zbase=self.Z))
        elif k == 'P':
            self.L = v = self.val('L')
            C.getS(self.f[0], params={'l': {'Ls': v}})
        elif k == 'T':
            self.z = v = self.val('Z')
            C.terminate('d.2', Z=v)
            self.ext = False
        elif k == 'C':
            self.C = C.copy()
            C.set('l.Ls', self.val('L'))      # does not matter for the copy
        else:
            raise ValueError(op)

    def ports(self):
        return ['l.s'] + (['d.2'] if self.ext else [])

    def check(self, label):
        ctx, C, N = self.ctx, self.C, self.fresh()
        for f in self.f[::-1]:
            ctx.eq(label + ': S', C.getS(f), N.getS(f))
        ctx.true('ports', list(C.ports) == self.ports())
        E = {p: 1. - .5j * i for i, p in enumerate(self.ports())}
        a, b = C.Solution(self.f[0], dict(E)), N.Solution(self.f[0], dict(E))
        ctx.true('nodes', sorted(a) == sorted(b))
        for p in b:
            ctx.eq(label + ': solution', np.array(a[p]), np.array(b[p]))


def freqs(ctx):
    f = ctx.real('f', 0, s=(2e7, 6e7))
    return [f, f + ctx.real('df', 0, s=(1e7, 2e7))]


def run(ctx, ops, fs=None, tag=''):
    s = State(ctx, fs or freqs(ctx), tag)
    for op in ops:
        s.do(op)
    s.check(' '.join(ops))


def seqs(ctx, first, n, ops):
    fs = freqs(ctx)
    for k, rest in enumerate(itertools.product(ops, repeat=n)):
        run(ctx, list(first) + list(rest), fs, 's%d_' % k)


def trl(ctx, how):
    """lines within a circuit: length changed through the circuit"""
    f = ctx.real('f', 0, s=(2e7, 6e7))
    L = [ctx.real('L%d' % i, 0, 1, s=(.1, 1.)) for i in (0, 1)]
    ctx.assume(L[0] < L[1])
    x = ctx.real('x', s=(.1, 1.))

    def make(l):
        C = rfCircuit()
        C.addblock('t', rfTRL(L=l, Z0TL=25., dx=300.), relpos=x)
        C.addblock('r', rfRLC(Rs=20.))
        C.connect('t.2', 'r.s')
        return C
    A, B = make(L[0]), make(L[1])
    if how != 'set':
        A.getS(f)
        if how == 'solved':
            A.Solution(f, {'t.1': 1., 'r.p': 1j})
    if how == 'params':
        S = A.getS(f, params={'t': {'L': L[1]}})
        ctx.eq('S', S, B.getS(f))
    elif how == 'several':
        ctx.true('set reports the change', A.set('t', {'L': L[1], 'dx': 300.}))
    else:
        A.set('t.L', L[1])
    ctx.eq('S', A.getS(f), B.getS(f))
    E = {'t.1': 1., 'r.p': 1j}
    a, b = A.Solution(f, E), B.Solution(f, E)
    for k in b:
        ctx.eq('solution', np.array(a[k]), np.array(b[k]))


def replaced(ctx, deep, late, params):
    """a block replaced by one with params; the params of other blocks stay"""
    fs = freqs(ctx)
    v = [ctx.real('v%d' % i, 0, s=(5., 30.)) for i in range(4)]

    def make(inner, inp, outer, outp):
        s = rfCircuit(Id='s')
        s.addblock('r', rfRLC(Rs=inner), params=inp)
        s.addblock('q', rfRLC(Rp=35.))
        s.connect('r.p', 'q.s')
        C = rfCircuit(Id='C')
        C.addblock('l', rfRLC(Rs=outer), params=outp)
        C.addblock('s', s, params={'q': {'Rp': v[3]}})
        C.connect('l.p', 's.r.s')
        return C
    C = make(3., {'Rs': v[0]}, 4., {'Rs': v[1]})
    if late:
        C.getS(fs[0])
    p = dict(params={'Rs': v[2]}) if params else {}
    C.addblock('s.r' if deep else 'l', rfRLC(Rs=7.), **p)
    new = v[2] if params else 7.
    N = make(new if deep else v[0], {}, v[1] if deep else new, {})
    for f in fs:
        ctx.eq('S', C.getS(f), N.getS(f))
    E = {'l.s': 1., 's.q.p': .5j}
    a, b = C.Solution(fs[0], dict(E)), N.Solution(fs[0], dict(E))
    for k in b:
        ctx.eq('solution', np.array(a[k]), np.array(b[k]))


OPS = ['G0', 'G1', 'G0z', 'F', 'X', 'L1', 'R1', 'Rb', 'B', 'P', 'T', 'C']


def cases(tier):
    out = []
    for o in ('L1', 'L2', 'L3', 'L4', 'R1', 'R2', 'R3', 'RL', 'Ru', 'Rv', 'Rw', 'Rx', 'Ry', 'Rz', 'Rb',
              'B', 'P', 'T'):
        for g in ('G0', 'F', 'X', 'G1z'):
            out.append(('%s after %s' % (o, g), 'run', dict(kw=dict(ops=[g, o]))))
    for a in OPS:
        out.append(('sequences %s..' % a, 'seqs', dict(kw=dict(first=[a], n=1, ops=OPS))))
        for b in ('L1', 'Rb', 'T', 'P', 'C') if tier == 'quick' else OPS:
            out.append(('sequences %s %s..' % (a, b), 'seqs',
                        dict(kw=dict(first=[a, b], n=1 if tier == 'quick' else 2, ops=OPS))))
    for h in ('set', 'getS', 'solved', 'params', 'several'):
        out.append(('line ' + h, 'trl', dict(kw=dict(how=h))))
    for deep in (0, 1):
        for late in (0, 1):
            for p in (0, 1):
                out.append(('replaced %d %d %d' % (deep, late, p), 'replaced',
                            dict(kw=dict(deep=deep, late=late, params=p))))
    return out
