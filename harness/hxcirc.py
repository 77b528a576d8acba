"""circuits: construction from a description, independent solution"""
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL


class Net:
    """blocks: name -> (ports, S, Zbase of S, object)
    ops: list of ('connect', p, q, ..) / ('terminate', p, kind, value)"""

    def __init__(self, ctx, f, Z):
        self.ctx, self.f, self.Z = ctx, f, Z
        self.blocks = {}
        self.ops = []
        self.order = []

    def mat(self, name, n, how='generic'):
        ctx = self.ctx
        if how == 'generic':
            return ctx.cmat(name, n)
        if how == 'recip':
            M = ctx.cmat(name, n)
            for i in range(n):
                for j in range(i):
                    M[i, j] = M[j, i]
            return M
        # numbers: fixed rational matrix (non reciprocal), no two entries alike
        k = sum(map(ord, name)) % 7
        M = np.zeros((n, n), dtype=complex)
        for i in range(n):
            for j in range(n):
                M[i, j] = ((3 * i + 5 * j + k) % 7 - 3) / 16 + 1j * (
                    (2 * i + 3 * j + k) % 5 - 2) / 16 + (3 / 8 if i != j else 0)
        return M

    def block(self, name, ports, how='generic', obj='base', Z=None, mat=None):
        """ports: number or names"""
        if isinstance(ports, int):
            ports = [str(i + 1) for i in range(ports)]
        n = len(ports)
        S = self.mat('S' + name, n, how) if mat is None else mat
        Zb = self.Z if Z is None else Z
        if obj == 'base':
            o = rfBase(Ss=[S], fs=[self.f], ports=list(ports), Zbase=Zb)
        elif obj == 'array':
            o = S
        elif obj == 'duck':
            o = Duck(S, ports)
        self.blocks[name] = (ports, S, Zb, o)
        self.order.append(('block', name))
        return self

    def add(self, *op):
        self.order.append(op)
        return self

    def conn(self, *ports):
        return self.add('connect', *ports)

    def term(self, port, **kw):
        return self.add('terminate', port, kw)

    # --------------------------------------------------------------- building
    def build(self, order=None, Z=None, **kw):
        C = rfCircuit(Zbase=self.Z if Z is None else Z, **kw)
        for op in (order or self.order):
            self.apply(C, op)
        return C

    def apply(self, C, op):
        if op[0] == 'block':
            ports, S, Zb, o = self.blocks[op[1]]
            if isinstance(o, np.ndarray) or isinstance(o, Duck) and not o.ports:
                C.addblock(op[1], o, ports=list(ports))
            else:
                C.addblock(op[1], o)
        elif op[0] == 'connect':
            C.connect(*op[1:])
        elif op[0] == 'terminate':
            C.terminate(op[1], **dict(op[2]))

    # ----------------------------------------------------------------- oracle
    def solution(self, ext, exc, Zr=None):
        """voltages and currents of all nodes for incident waves exc (a dict, on
        Zr) at the ports ext; currents flow into blocks, into the circuit"""
        Zr = self.Z if Zr is None else Zr
        nodes, eqs = [], []
        for name, (ports, S, Zb, o) in self.blocks.items():
            nodes += [name + '.' + p for p in ports]
        news = []
        for op in self.order:
            if op[0] == 'connect':
                for p in op[1:]:
                    if p not in nodes and p not in news:
                        news.append(p)
        allp = nodes + news
        N = len(allp)
        V = {p: i for i, p in enumerate(allp)}
        I = {p: N + i for i, p in enumerate(allp)}
        rhs = []

        def row(terms, r=0.):
            e = [0.] * (2 * N)
            for k, c in terms:
                e[k] = e[k] + c
            eqs.append(e)
            rhs.append(r)
        for name, (ports, S, Zb, o) in self.blocks.items():
            for i, p in enumerate(ports):
                t = [(V[name + '.' + p], 1.), (I[name + '.' + p], -Zb)]
                for j, q in enumerate(ports):
                    t += [(V[name + '.' + q], -S[i, j]), (I[name + '.' + q], -S[i, j] * Zb)]
                row(t)
        made = set()
        for op in self.order:
            if op[0] == 'connect':
                ps = op[1:]
                for p in ps[1:]:
                    row([(V[p], 1.), (V[ps[0]], -1.)])
                # a new port: the current flows into the circuit there
                row([(I[p], -1. if (p in news and p not in made) else 1.) for p in ps])
                made |= set(p for p in ps if p in news)
            elif op[0] == 'terminate':
                p, kw = op[1], op[2]
                if 'Z' in kw:
                    row([(V[p], 1.), (I[p], kw['Z'])])
                elif 'Y' in kw:
                    row([(V[p], kw['Y']), (I[p], 1.)])
                else:
                    rc = kw.get('RC', 0.)
                    row([(V[p], 1. - rc), (I[p], self.Z * (1. + rc))])
        for p in ext:
            row([(V[p], .5), (I[p], .5 * Zr)], exc[p])
        x = np.linalg.solve(np.array(eqs, dtype=complex), np.array(rhs, dtype=complex))
        return {p: (x[V[p]], x[I[p]]) for p in allp}

    def smatrix(self, ext, Zr=None):
        Zr = self.Z if Zr is None else Zr
        cols = []
        for p in ext:
            s = self.solution(ext, {q: 1. if q == p else 0. for q in ext}, Zr)
            cols.append([(s[q][0] - Zr * s[q][1]) / 2 for q in ext])
        return np.array(cols).T

    def check(self, label, C, ext=None, order=None, Zr=None, S=None):
        """the S matrix of C is that of the network"""
        ctx = self.ctx
        if S is None:
            S = C.getS(self.f) if Zr is None else C.getS(self.f, Zbase=Zr)
        ports = list(C.ports)
        if ext is not None:
            ctx.true(label + ': external ports', sorted(ports) == sorted(ext))
        if order is not None:
            ctx.true(label + ': port order', ports == list(order))
        ctx.true(label + ': shape', np.shape(S) == (len(ports), len(ports)))
        ctx.eq(label, S, self.smatrix(ports, Zr))
        return S


TERMS = {
    'Z': lambda ctx, zs: dict(Z=zs('z')), 'Y': lambda ctx, zs: dict(Y=zs('y')),
    'RC': lambda ctx, zs: dict(RC=zs('rc')), 'cZ': lambda ctx, zs: dict(Z=ctx.cplx('z')),
    'cY': lambda ctx, zs: dict(Y=ctx.cplx('y')), 'cRC': lambda ctx, zs: dict(RC=ctx.cplx('rc')),
    'short': lambda ctx, zs: dict(Z=0.), 'open': lambda ctx, zs: dict(Y=0.),
    'matched': lambda ctx, zs: {}, 'zero': lambda ctx, zs: dict(RC=0.)}


def STRUCT(name, N, zs):
    """the structures; zs: supplier of symbolic values"""
    if name == 'cascade':
        N.block('a', 2).block('b', 2).conn('a.2', 'b.1')
        return ['a.1', 'b.2']
    if name == 'cascade reversed':
        N.block('a', 2).block('b', 2).conn('b.1', 'a.2')
        return ['a.1', 'b.2']
    if name == 'first ports':
        N.block('a', 2).block('b', 2).conn('a.1', 'b.1')
        return ['a.2', 'b.2']
    if name == 'cascade3':
        N.block('a', 2).block('b', 2).block('c', 2).conn('b.2', 'c.1').conn('a.2', 'b.1')
        return ['a.1', 'c.2']
    if name == 'three port and two port':
        N.block('a', 3).block('b', 2, 'num').conn('a.2', 'b.2')
        return ['a.1', 'a.3', 'b.1']
    if name == 'load':
        N.block('a', 3).block('l', 1).conn('l.1', 'a.1')
        return ['a.2', 'a.3']
    if name == 'double':
        N.block('a', 3).block('b', 3, 'num').conn('a.1', 'b.3').conn('a.2', 'b.1')
        return ['a.3', 'b.2']
    if name == 'loop':
        N.block('a', 4).conn('a.2', 'a.4')
        return ['a.1', 'a.3']
    if name == 'named port':
        N.block('a', 2).block('b', 2).conn('a.2', 'b.1').conn('a.1', 'in')
        return ['in', 'b.2']
    if name == 'two named ports':
        N.block('a', 2).conn('out', 'a.2').conn('a.1', 'in')
        return ['in', 'out']
    if name == 'shunt':
        # a new port at a junction
        N.block('a', 2).block('b', 2).conn('a.2', 'b.1', 'T')
        return ['a.1', 'b.2', 'T']
    if name == 'shunt first':
        N.block('a', 2).block('b', 2).conn('T', 'a.2', 'b.1')
        return ['a.1', 'b.2', 'T']
    if name == 'junction3':
        N.block('a', 2).block('b', 2).block('c', 2).conn('a.2', 'b.1', 'c.1')
        return ['a.1', 'b.2', 'c.2']
    if name == 'junction4':
        N.block('a', 2).block('b', 2, 'num').block('c', 1).conn('a.2', 'b.1', 'c.1', 'T')
        return ['a.1', 'b.2', 'T']
    if name == 'junction5':
        N.block('a', 3, 'num').block('b', 2).block('c', 2, 'num')
        N.conn('c.2', 'a.2', 'b.1', 'T', 'a.1')
        return ['a.3', 'b.2', 'c.1', 'T']
    if name == 'junction of one block':
        N.block('a', 4, 'num').block('b', 2).conn('a.2', 'a.3', 'b.1')
        return ['a.1', 'a.4', 'b.2']
    if name == 'two junctions':
        N.block('a', 3, 'num').block('b', 3, 'num').block('c', 2)
        N.conn('a.1', 'b.1', 'c.1').conn('a.2', 'b.3', 'U')
        return ['a.3', 'b.2', 'c.2', 'U']
    if name == 'junction used later':
        N.block('a', 2).block('b', 2, 'num').conn('a.2', 'b.1', 'T').block('c', 2, 'num')
        N.conn('T', 'c.1')
        return ['a.1', 'b.2', 'c.2']
    if name == 'junction extended':
        N.block('a', 2).block('b', 2, 'num').conn('a.2', 'b.1', 'T').block('c', 2, 'num')
        N.conn('c.1', 'T', 'U')
        return ['a.1', 'b.2', 'c.2', 'U']
    if name == 'separate':
        N.block('a', 2).block('b', 2)
        return ['a.1', 'a.2', 'b.1', 'b.2']
    if name.startswith('terminated ') and name.split()[1] in TERMS:
        kw = TERMS[name.split()[1]](N.ctx, zs)
        N.block('a', 3).term('a.2', **kw)
        return ['a.1', 'a.3']
    if name == 'terminations':
        N.block('a', 4, 'num').block('b', 3).term('b.3', Z=zs('z')).conn('a.1', 'b.1')
        N.term('a.4', Y=zs('y')).term('a.2', RC=zs('rc'))
        return ['a.3', 'b.2']
    if name == 'terminated junction':
        N.block('a', 2).block('b', 2).conn('a.2', 'b.1', 'T').term('T', Z=zs('z'))
        return ['a.1', 'b.2']
    if name == 'terminated port':
        N.block('a', 2).block('b', 2, 'num').conn('a.2', 'b.1').conn('b.2', 'out')
        N.term('out', Z=zs('z'))
        return ['a.1']
    if name == 'similar names':
        N.block('a', ['1', '11']).block('aa', ['1', '11']).block('a1', ['1', 'a'], 'num')
        N.conn('a.11', 'aa.1').conn('aa.11', 'a1.1')
        return ['a.1', 'a1.a']
    raise ValueError(name)


class Duck:
    """the minimal object a circuit accepts"""

    def __init__(self, S, ports=None):
        self.S = S
        self.ports = list(ports) if ports else []
        self.Id = 'duck'
        self.xpos = [0.] * len(S)

    def __len__(self):
        return len(self.S)

    def getS(self, f, Zbase=None, params={}, flags={}):
        return self.S
