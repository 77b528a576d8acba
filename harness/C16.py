"""rfCircuit.Get_internalSmatrix: S-matrix seen at nodes inside a circuit"""
import numpy as np
from pyRFtk import rfCircuit, rfBase
from hxutil import *
from hxcirc import *

META = dict(
    bounds='chains, junctions and nested circuits of up to 4 blocks of 1-4 ports with '
           'arbitrary complex S; as many nodes as external ports, or fewer (1 of 2, 2 of '
           '3) where the waves at the nodes are related; forward and reversed nodes; '
           'reference impedances symbolic',
    assumptions=['the circuit equations are non singular',
                 'the waves at the nodes are independent (the circuit transmits)'])


def zf(ctx):
    return ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))


def states(ctx, label, C, N, f, nodes, S, Z, ext=None, names=None):
    """b = S a at the nodes for every excitation"""
    ext = list(ext or C.ports)
    names = names or {}
    n = len(nodes)
    ctx.true(label + ': shape', np.shape(S) == (n, n))
    for p in ext:
        w = N.solution(ext, {q: 1. if q == p else 0. for q in ext})
        a, b = [], []
        for q in nodes:
            rev = q[0] == '<'
            q = q[1:] if rev else q
            V, I = w[names.get(q, q)]
            u, v = (V + Z * I) / 2, (V - Z * I) / 2
            a.append(v if rev else u)
            b.append(u if rev else v)
        ctx.eq(label, S @ np.array(a), np.array(b))


def chain(ctx, nodes, how='own'):
    f, Z = zf(ctx)
    N = Net(ctx, f, Z).block('a', 2).block('b', 2).block('c', 2, 'num')
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    if how == 'named':
        N.conn('c.2', 'out')
    C = N.build()
    if how == 'solved':
        C.Solution(f, {p: 1. for p in C.ports})
    Zr = ctx.real('Zr', 0, s=(10., 90.)) if how == 'other' else Z
    given = list(nodes)
    S = C.Get_internalSmatrix(f, given, Zr) if how == 'other' else \
        C.Get_internalSmatrix(f, given)
    ctx.true('nodes not modified', given == list(nodes))
    states(ctx, 'states', C, N, f, nodes, S, Zr, ext=['a.1', 'out' if how == 'named' else 'c.2'])
    if list(nodes) == ['b.1', 'b.2'] and how != 'other':
        ctx.eq('the block itself', S, N.blocks['b'][1])
        ctx.eq('reversed', C.Get_internalSmatrix(f, ['<a.2', '<c.1']), S)
    if list(nodes) == ['c.2', 'a.1']:
        ctx.eq('the circuit itself', S, N.smatrix(['c.2', 'a.1'], Zr))


def fewer(ctx, how):
    """fewer nodes than external ports: beyond the node there is no source"""
    f, Z = zf(ctx)
    N = Net(ctx, f, Z)
    z = ctx.real('z', 0, s=(10., 90.))
    if how == 'load':
        N.block('a', 3).block('b', 2).term('b.2', Z=z).conn('a.2', 'b.1')
        nodes = ['b.1']
    elif how == 'reversed':
        N.block('a', 3).block('b', 2).term('b.2', Z=z).conn('a.2', 'b.1')
        nodes = ['<a.2']
    elif how == 'two of three':
        N.block('a', 5, 'num').block('b', 3, 'num').term('b.3', Y=.03)
        N.conn('a.2', 'b.1').conn('a.4', 'b.2')
        nodes = ['b.2', 'b.1']
    elif how == 'through':
        # all excitations but one are removed
        N.block('a', 2).block('b', 2).block('g', 1).conn('a.2', 'b.1', 'T').conn('b.2', 'g.1')
        nodes = ['b.1']
    C = N.build()
    S = C.Get_internalSmatrix(f, nodes)
    states(ctx, how, C, N, f, nodes, S, Z)


def nested(ctx, how):
    f, Z = zf(ctx)
    N = Net(ctx, f, Z).block('a', 2).block('b', 2, 'num').block('c', 2, 'num')
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    sub = rfCircuit(Zbase=Z if how != 'other' else 2 * Z)
    sub.addblock('a', N.blocks['a'][3])
    sub.addblock('b', N.blocks['b'][3])
    sub.connect('a.2', 'b.1')
    C = rfCircuit(Zbase=Z)
    C.addblock('c', N.blocks['c'][3])
    C.addblock('s', sub, **({'ports': {'b.2': 'o', 'a.1': 'i'}} if how == 'renamed' else {}))
    C.connect('c.1', 's.o' if how == 'renamed' else 's.b.2')
    ext = ['c.2', 's.i' if how == 'renamed' else 's.a.1']
    names = {'s.b.1': 'b.1', 's.a.2': 'a.2', 's.i': 'a.1', 's.o': 'b.2', 's.a.1': 'a.1',
             's.b.2': 'b.2'}
    for nodes in (['s.b.1', 'c.2'], ['c.1', '<s.b.1'], ['<s.a.2', ext[1]]):
        S = C.Get_internalSmatrix(f, nodes)
        ctx.true('shape', np.shape(S) == (2, 2))
        for e in (0, 1):
            x = ['c.2', 'a.1']
            w = N.solution(x, {q: 1. if q == x[e] else 0. for q in x})
            a, b = [], []
            for q in nodes:
                rev = q[0] == '<'
                q = q[1:] if rev else q
                V, I = w[names.get(q, q)]
                u, v = (V + Z * I) / 2, (V - Z * I) / 2
                a.append(v if rev else u)
                b.append(u if rev else v)
            ctx.eq('states', S @ np.array(a), np.array(b))


def junction(ctx, nodes):
    f, Z = zf(ctx)
    N = Net(ctx, f, Z).block('a', 2).block('b', 2, 'num').block('c', 2, 'num')
    N.conn('a.2', 'b.1', 'c.1')
    C = N.build()
    S = C.Get_internalSmatrix(f, list(nodes))
    states(ctx, 'states', C, N, f, nodes, S, Z)


def errors(ctx):
    f, Z = zf(ctx)
    N = Net(ctx, f, Z).block('a', 2).block('b', 2, 'num').conn('a.2', 'b.1')
    ctx.raises('too many nodes', ValueError, N.build().Get_internalSmatrix, f,
               ['a.1', 'a.2', 'b.2'])


def cases(tier):
    for nodes in (['b.1', 'b.2'], ['c.2', 'a.1'], ['<b.2', 'c.2'], ['a.1', 'c.1'],
                  ['<a.2', 'b.2'], ['<a.2', '<c.1']):
        yield 'chain ' + ' '.join(nodes), 'chain', dict(kw=dict(nodes=nodes))
    for how in ('other', 'named', 'solved'):
        yield 'chain ' + how, 'chain', dict(kw=dict(nodes=['b.1', 'b.2'], how=how))
    yield 'ports other', 'chain', dict(kw=dict(nodes=['c.2', 'a.1'], how='other'))
    for how in ('load', 'reversed', 'two of three', 'through'):
        yield 'fewer ' + how, 'fewer', dict(kw=dict(how=how))
    for how in ('plain', 'renamed', 'other'):
        yield 'nested ' + how, 'nested', dict(kw=dict(how=how))
    for nodes in (['a.2', 'b.1', 'c.1'], ['<c.1', 'b.2', 'a.1']):
        yield 'junction ' + ' '.join(nodes), 'junction', dict(kw=dict(nodes=nodes))
    yield 'invalid', 'errors', {}
