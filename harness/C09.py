"""rfCircuit: the S-matrix of a circuit obeys Kirchhoff's laws"""
import numpy as np
from pyRFtk import rfCircuit, rfBase
from hxutil import *
from hxcirc import *

META = dict(
    bounds='circuits of up to 4 blocks with 1-4 ports, junctions of up to 5 ports, up to 3 '
           'terminations; block S-matrices of arbitrary complex entries (non reciprocal), '
           'reference impedances, terminations and frequency symbolic',
    assumptions=['the circuit equations are non singular'])


def one(ctx, n, obj):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', n, obj=obj)
    C = N.build()
    ports = ['a.%d' % (i + 1) for i in range(n)]
    N.check('one block', C, order=ports)
    ctx.eq('one block', C.getS(f), N.blocks['a'][1])


def struct(ctx, name, obj='base'):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    if obj != 'base':
        blk = N.block
        N.block = lambda n, p, how='generic', o=None: blk(n, p, how, obj)
    ext = STRUCT(name, N, lambda n: ctx.real(n, 0, s=(1., 90.)))
    C = N.build()
    S = N.check('Kirchhoff', C, ext)
    ctx.eq('again', C.getS(f), S)
    ctx.true('number of ports', len(C) == len(ext))


def bases(ctx, name):
    """blocks and circuit on different reference impedances"""
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z = [ctx.real('Z%d' % i, 0, s=(10., 90.)) for i in range(4)]
    N = Net(ctx, f, Z[0])
    N.block('a', 2, Z=Z[1]).block('b', 2, 'num', Z=Z[2])
    if name == 'cascade':
        N.conn('a.2', 'b.1')
    elif name == 'junction':
        N.conn('a.2', 'b.1', 'T')
    else:
        N.conn('a.2', 'b.1').term('b.2', Z=ctx.real('z', 0, s=(10., 90.)))
    C = N.build()
    N.check('own reference', C)
    if name != 'junction':
        N.check('asked reference', C, Zr=Z[3])
        N.check('own reference again', C)
    else:
        N.check('asked reference', C, Zr=2 * Z[0])


def reference(ctx):
    """S on another reference than the circuit's"""
    f = ctx.real('f', 0, s=(2e7, 6e7))
    Z, Zr = ctx.real('Z', 0, s=(10., 90.)), ctx.real('Zr', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2).block('b', 3, 'num').conn('a.2', 'b.1')
    C = N.build()
    N.check('asked reference first', C, Zr=Zr)
    N.check('own reference', C)
    C = N.build()
    N.check('positional', C, Zr=Zr, S=C.getS(f, Zr))
    Ss = C.getS([f], Zr)
    ctx.true('list of frequencies', np.shape(Ss) == (1, 3, 3))
    N.check('list', C, Zr=Zr, S=Ss[0])


def lists(ctx, how):
    """a list of frequencies gives the list of S"""
    Z = ctx.real('Z', 0, s=(10., 90.))
    f = [ctx.real('f%d' % i, 0, s=(2e7, 6e7)) for i in (0, 1)]
    ctx.assume(f[0] < f[1])
    A = [ctx.cmat('A%d' % i, 2) for i in (0, 1)]
    B = [ctx.cmat('B%d' % i, 2) for i in (0, 1)]
    z = ctx.real('z', 0, s=(10., 90.))
    C = rfCircuit(Zbase=Z)
    C.addblock('a', rfBase(Ss=A, fs=f, Zbase=Z))
    C.addblock('b', rfBase(Ss=B, fs=f, Zbase=Z))
    C.connect('a.2', 'b.1')
    C.terminate('b.2', Z=z)
    idx = [1, 0, 0, 1]
    fs = [f[i] for i in idx]
    Ss = C.getS(fs if how == 'list' else np.array(fs) if how == 'array' else tuple(fs))
    ctx.true('shape', np.shape(Ss) == (4, 1, 1))
    for k, i in enumerate(idx):
        N = Net(ctx, f[i], Z).block('a', 2, mat=A[i]).block('b', 2, mat=B[i])
        N.conn('a.2', 'b.1').term('b.2', Z=z)
        ctx.eq('frequency %d' % k, Ss[k], N.smatrix(['a.1']))


def names(ctx, how):
    """the ways to name the ports of a block"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    S = ctx.cmat('S', 3)
    obj = rfBase(Ss=[S], fs=[f], Zbase=Z, ports=['x', 'y', 'z'])
    C = rfCircuit(Zbase=Z)
    arg = {'none': None, 'list': ['p', 'q', 'r'], 'dict': dict(x='p', y='q', z='r'),
           'partial': dict(y='q'), 'swap': dict(x='y', y='x'), 'fmt': 'n%d',
           'empty': {}, 'array': ['p', 'q', 'r'], 'array fmt': 'n%d', 'array none': None}[how]
    C.addblock('a', S if 'array' in how else obj, ports=arg)
    want = {'none': 'xyz', 'list': 'pqr', 'dict': 'pqr', 'partial': 'xqz', 'swap': 'yxz',
            'fmt': ['n1', 'n2', 'n3'], 'empty': 'xyz', 'array': 'pqr',
            'array fmt': ['n1', 'n2', 'n3'], 'array none': '123'}[how]
    ports = ['a.' + p for p in want]
    ctx.true('ports', list(C.ports) == ports)
    ctx.eq('S', C.getS(f), S)
    D = rfCircuit(Zbase=Z)
    D.addblock('a', S if 'array' in how else obj, ports={
        'list': ['p', 'q', 'r'], 'dict': dict(x='p', y='q', z='r'),
        'partial': dict(y='q'), 'swap': dict(x='y', y='x'), 'fmt': 'n%d',
        'array': ['p', 'q', 'r'], 'array fmt': 'n%d'}.get(how))
    D.connect(ports[1], 'mid')
    S1 = D.getS(f)
    k = [0, 2, 1]
    ctx.true('ports', list(D.ports) == [ports[0], ports[2], 'mid'])
    ctx.eq('S', S1, S[k, :][:, k])


def late(ctx, how):
    """the network is changed after it was evaluated with its ports external"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 3).block('b', 2, 'num').conn('a.2', 'b.1')
    C = N.build()
    N.check('before', C)
    t = [('terminate', 'b.2', TERMS[h](ctx, lambda n: ctx.real(n + h, 0, s=(1., 90.))))
         for h in how.split()]
    for op in t:
        N.apply(C, op)
        M = Net(ctx, f, Z)
        M.blocks, M.order = N.blocks, N.order + [op]
        M.check('after', C, ['a.1', 'a.3'])


def bad(ctx):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z).block('a', 2).block('b', 2)
    C = N.build()
    obj = rfBase(Ss=[ctx.cmat('S', 3)], fs=[f], ports=['x', 'y', 'z'])
    ctx.raises('number of port names', ValueError, C.addblock, 'c', obj, ports=['x', 'y'])
    ctx.raises('unknown port', ValueError, C.addblock, 'c', obj, ports=dict(u='y'))
    ctx.raises('replacement with other ports', ValueError, C.addblock, 'a', obj)
    ctx.raises('more than one new port', ValueError, C.connect, 'a.1', 'T', 'U')
    ctx.raises('dotted new port', ValueError, C.connect, 'a.1', 'b.3')
    ctx.raises('several terminations', ValueError, C.terminate, 'a.1', Z=1., Y=1.)
    ctx.raises('unknown termination', ValueError, C.terminate, 'a.1', L=1.)


def cases(tier):
    out = []
    for n in (1, 2, 3, 4):
        for obj in ('base', 'array', 'duck'):
            out.append(('one %d %s' % (n, obj), 'one', dict(kw=dict(n=n, obj=obj))))
    for s in ('cascade', 'cascade reversed', 'first ports', 'cascade3',
              'three port and two port', 'load', 'double', 'loop', 'named port',
              'two named ports', 'shunt', 'shunt first', 'junction3', 'junction4',
              'junction5', 'junction of one block', 'two junctions',
              'junction used later', 'junction extended', 'separate',
              'terminated Z', 'terminated Y', 'terminated RC', 'terminated cZ',
              'terminated cY', 'terminated cRC', 'terminated short', 'terminated open',
              'terminated matched', 'terminated zero',
              'terminations', 'terminated junction', 'terminated port', 'similar names'):
        out.append((s, 'struct', dict(kw=dict(name=s))))
    for s in ('named port', 'shunt', 'junction3', 'terminated Z'):
        for o in ('array', 'duck'):
            out.append(('%s %s' % (s, o), 'struct', dict(kw=dict(name=s, obj=o))))
    for s in ('cascade', 'junction', 'terminated'):
        out.append(('bases ' + s, 'bases', dict(kw=dict(name=s))))
    out.append(('reference', 'reference', {}))
    for h in ('list', 'array', 'tuple'):
        out.append(('lists ' + h, 'lists', dict(kw=dict(how=h))))
    for h in ('none', 'list', 'dict', 'partial', 'swap', 'fmt', 'empty', 'array',
              'array fmt', 'array none'):
        out.append(('names ' + h, 'names', dict(kw=dict(how=h))))
    for h in ('Z', 'Y', 'RC', 'cZ', 'short', 'Z cY', 'RC matched'):
        out.append(('late ' + h, 'late', dict(kw=dict(how=h))))
    out.append(('bad', 'bad', {}))
    return out
