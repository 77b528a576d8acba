"""rfCircuit: a nested circuit is equivalent to the flat one"""
import itertools
import numpy as np
from pyRFtk import rfCircuit, rfBase
from hxutil import *
from hxcirc import *

META = dict(
    bounds='up to 3 levels of nesting, up to 4 leaf blocks of 1-3 ports, renamed ports, '
           'announced port orders, different reference impedances per level, replaced '
           'inner blocks; block S-matrices of arbitrary complex entries',
    assumptions=['the circuit equations are non singular'])


def leafs(ctx, *spec):
    """a flat network with the leaf blocks only"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    for name, n, how in spec:
        N.block(name, n, how)
    return f, Z, N


def obj(N, name):
    return N.blocks[name][3]


def compare(ctx, label, C, N, names, Zr=None):
    """names: external port of C -> port of the flat network"""
    S = C.getS(N.f) if Zr is None else C.getS(N.f, Zr)
    ctx.true(label + ': external ports', sorted(C.ports) == sorted(names))
    ctx.eq(label, S, N.smatrix([names[p] for p in C.ports], Zr))


def sub2(ctx, N, Z, **kw):
    """a.1 -a- a.2 = b.1 -b- b.2"""
    C = rfCircuit(Zbase=Z, **kw)
    C.addblock('a', obj(N, 'a'))
    C.addblock('b', obj(N, 'b'))
    C.connect('a.2', 'b.1')
    return C


def basic(ctx, how):
    f, Z, N = leafs(ctx, ('a', 2, 'generic'), ('b', 2, 'generic'), ('c', 2, 'num'))
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    Zs = {'same': Z, 'other': ctx.real('Zs', 0, s=(10., 90.)), 'number': 35.}[
        how if how in ('other', 'number') else 'same']
    kw = {}
    if how == 'portnames':
        kw = dict(Portnames=['b.2', 'a.1'])
    elif how == 'portnames solved':
        kw = dict(Portnames=['b.2', 'a.1'])
    S = sub2(ctx, N, Zs, **kw)
    if how in ('solved', 'portnames solved'):
        S.getS(f)
    C = rfCircuit(Zbase=Z)
    pn = {'renamed': {'a.1': 'x', 'b.2': 'y'}, 'swapped': {'a.1': 'b.2', 'b.2': 'a.1'},
          'list': ['x', 'y'], 'fmt': 'p%d', 'partial': {'b.2': 'y'}}.get(how)
    C.addblock('s', S, ports=pn)
    p, q = {'renamed': ('x', 'y'), 'swapped': ('b.2', 'a.1'), 'list': ('x', 'y'),
            'fmt': ('p1', 'p2'), 'partial': ('a.1', 'y')}.get(how, ('a.1', 'b.2'))
    C.addblock('c', obj(N, 'c'))
    C.connect('s.' + q, 'c.1')
    compare(ctx, how, C, N, {'s.' + p: 'a.1', 'c.2': 'c.2'})
    if how in ('other', 'number'):
        compare(ctx, 'other reference', C, N, {'s.' + p: 'a.1', 'c.2': 'c.2'}, 2 * Z)
        compare(ctx, 'again', C, N, {'s.' + p: 'a.1', 'c.2': 'c.2'})


def named(ctx, how):
    """the inner circuit has named ports"""
    f, Z, N = leafs(ctx, ('a', 3, 'generic'), ('b', 2, 'generic'), ('c', 2, 'num'))
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    z = ctx.real('z', 0, s=(10., 90.))
    N.term('a.3', Z=z)
    S = rfCircuit(Zbase=Z, **({'Portnames': ['out', 'in']} if how == 'order' else {}))
    S.addblock('b', obj(N, 'b'))
    S.addblock('a', obj(N, 'a'))
    S.connect('a.2', 'b.1')
    S.terminate('a.3', Z=z)
    S.connect('a.1', 'in')
    S.connect('out', 'b.2')
    C = rfCircuit(Zbase=Z)
    C.addblock('c', obj(N, 'c'))
    C.addblock('s', S)
    C.connect('s.out', 'c.1')
    compare(ctx, 'named', C, N, {'s.in': 'a.1', 'c.2': 'c.2'})


def deep(ctx, levels, how):
    """circuits in circuits, one block added per level"""
    f, Z, N = leafs(ctx, ('a', 2, 'num' if how == 'other' else 'generic'), ('b', 2, 'num'),
                    ('c', 2, 'num'), ('d', 2, 'num'))
    N.conn('a.2', 'b.1').conn('b.2', 'c.1').conn('c.2', 'd.1')
    Zs = [Z, Z, Z, Z] if how != 'other' else [
        Z, 40., 25., 60.][:levels] + [ctx.real('Zs', 0, s=(10., 90.))]
    S = rfCircuit(Zbase=Zs[levels])
    S.addblock('a', obj(N, 'a'))
    if how == 'renamed':
        S.connect('a.1', 'in')
        S.connect('a.2', 'out')
    p, q = ('in', 'out') if how == 'renamed' else ('a.1', 'a.2')
    names = 'abcd'
    for k in range(levels):
        C = rfCircuit(Zbase=Zs[levels - 1 - k])
        C.addblock('s', S)
        nb = names[k + 1]
        C.addblock(nb, obj(N, nb))
        C.connect(nb + '.1', 's.' + q)
        p, q = 's.' + p, nb + '.2'
        if how == 'renamed':
            C.connect('in', p)
            C.connect(q, 'out')
            p, q = 'in', 'out'
        S = C
    M = Net(ctx, f, Z)
    M.blocks = {k: v for k, v in N.blocks.items() if k in names[:levels + 1]}
    M.order = [o for o in N.order if o[0] == 'connect'][:levels]
    compare(ctx, how, S, M, {p: 'a.1', q: names[levels] + '.2'})


def twice(ctx, how):
    """the same object in several places"""
    f, Z, N = leafs(ctx, ('a', 2, 'generic'), ('b', 2, 'num'))
    S = sub2(ctx, N, Z)
    N.conn('a.2', 'b.1')
    for k in ('a', 'b'):
        N.blocks[k + k] = N.blocks[k]
    N.conn('aa.2', 'bb.1')
    C = rfCircuit(Zbase=Z)
    C.addblock('s', S)
    C.addblock('t', S)
    if how == 'cascade':
        C.connect('s.b.2', 't.a.1')
        N.conn('b.2', 'aa.1')
        names = {'s.a.1': 'a.1', 't.b.2': 'bb.2'}
    elif how == 'back to back':
        C.connect('s.b.2', 't.b.2')
        N.conn('b.2', 'bb.2')
        names = {'s.a.1': 'a.1', 't.a.1': 'aa.1'}
    else:
        C.connect('s.a.1', 't.a.1', 'in')
        C.connect('s.b.2', 't.b.2', 'out')
        N.conn('a.1', 'aa.1', 'in').conn('b.2', 'bb.2', 'out')
        names = {'in': 'in', 'out': 'out'}
    compare(ctx, how, C, N, names)


def replaced(ctx, how):
    """addblock('sub.block', ...) replaces an inner block"""
    f, Z, N = leafs(ctx, ('a', 2, 'generic'), ('b', 2, 'num'), ('c', 2, 'num'),
                    ('n', 2, 'generic'))
    S = sub2(ctx, N, Z)
    C = rfCircuit(Zbase=Z)
    C.addblock('s', S)
    C.addblock('c', obj(N, 'c'))
    C.connect('s.b.2', 'c.1')
    names = {'s.a.1': 'a.1', 'c.2': 'c.2'}
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    N2 = Net(ctx, f, Z)
    N2.blocks, N2.order = dict(N.blocks), N.order
    if how == 'before':
        C.addblock('s.b', obj(N, 'n'))
    elif how == 'after':
        del N.blocks['n']
        compare(ctx, 'original', C, N, names)
        C.addblock('s.b', obj(N2, 'n'))
    elif how == 'top':
        del N.blocks['n']
        compare(ctx, 'original', C, N, names)
        C.addblock('c', obj(N2, 'n'))
    elif how == 'sub':
        del N.blocks['n']
        compare(ctx, 'original', C, N, names)
        T = rfCircuit(Zbase=Z)
        T.addblock('b', obj(N, 'b'))
        T.addblock('a', obj(N2, 'n'))
        T.connect('a.2', 'b.1')
        T.connect('a.1', 'i')
        T.connect('b.2', 'o')
        C.addblock('s', T)
    elif how == 'twice':
        del N.blocks['n']
        C.addblock('s.b', obj(N, 'c'))
        C.getS(f)
        C.addblock('s.b', obj(N2, 'n'))
    repl = {'top': 'c', 'sub': 'a'}.get(how, 'b')
    N2.blocks[repl] = N2.blocks.pop('n')
    compare(ctx, 'replaced', C, N2, names)
    # the inner circuit itself is not touched
    if how in ('before', 'after', 'twice'):
        M = Net(ctx, f, Z)
        M.blocks = {k: N.blocks[k] for k in 'ab'}
        M.order = [('connect', 'a.2', 'b.1')]
        compare(ctx, 'the original inner circuit', S, M, {'a.1': 'a.1', 'b.2': 'b.2'})


def replaced_shared(ctx):
    """replacing in one place does not change the other users of the object"""
    f, Z, N = leafs(ctx, ('a', 2, 'generic'), ('b', 2, 'num'), ('n', 2, 'generic'))
    S = sub2(ctx, N, Z)
    new = N.blocks.pop('n')
    N.conn('a.2', 'b.1')
    for k in ('a', 'b'):
        N.blocks[k + k] = N.blocks[k]
    N.conn('aa.2', 'bb.1').conn('b.2', 'aa.1')
    C = rfCircuit(Zbase=Z)
    C.addblock('s', S)
    C.addblock('t', S)
    C.connect('s.b.2', 't.a.1')
    C.addblock('t.a', new[3])
    N.blocks['aa'] = new
    compare(ctx, 'replaced', C, N, {'s.a.1': 'a.1', 't.b.2': 'bb.2'})


def replaced_deep(ctx):
    f, Z, N = leafs(ctx, ('a', 2, 'generic'), ('b', 2, 'num'), ('c', 2, 'num'),
                    ('n', 2, 'generic'))
    S = sub2(ctx, N, Z)
    T = rfCircuit(Zbase=Z)
    T.addblock('s', S)
    C = rfCircuit(Zbase=Z)
    C.addblock('t', T)
    C.addblock('c', obj(N, 'c'))
    C.connect('t.s.b.2', 'c.1')
    N.conn('a.2', 'b.1').conn('b.2', 'c.1')
    new = N.blocks.pop('n')
    names = {'t.s.a.1': 'a.1', 'c.2': 'c.2'}
    compare(ctx, 'original', C, N, names)
    C.addblock('t.s.a', new[3])
    old = N.blocks['a']
    N.blocks['a'] = new
    compare(ctx, 'replaced', C, N, names)
    C.addblock('t.s.a', old[3])
    N.blocks['a'] = old
    compare(ctx, 'put back', C, N, names)
    ctx.raises('unknown block', ValueError, C.addblock, 'u.s', new[3])


def three(ctx, perm):
    """an inner three port with each announced port order"""
    f, Z, N = leafs(ctx, ('a', 3, 'generic'), ('b', 2, 'num'), ('c', 2, 'num'))
    order = list(itertools.permutations(['b.2', 'a.1', 'a.3']))[perm]
    S = rfCircuit(Zbase=Z, Portnames=list(order))
    S.addblock('b', obj(N, 'b'))
    S.addblock('a', obj(N, 'a'))
    S.connect('a.2', 'b.1')
    C = rfCircuit(Zbase=Z)
    C.addblock('c', obj(N, 'c'))
    C.addblock('s', S)
    C.connect('c.1', 's.a.3')
    N.conn('a.2', 'b.1').conn('a.3', 'c.1')
    compare(ctx, 'nested', C, N, {'s.a.1': 'a.1', 's.b.2': 'b.2', 'c.2': 'c.2'})


def cases(tier):
    out = []
    for h in ('same', 'other', 'number', 'solved', 'renamed', 'swapped', 'list', 'fmt',
              'partial', 'portnames', 'portnames solved'):
        out.append(('two levels ' + h, 'basic', dict(kw=dict(how=h))))
    for h in ('plain', 'order'):
        out.append(('named ports ' + h, 'named', dict(kw=dict(how=h))))
    for n in (1, 2, 3):
        for h in ('plain', 'renamed', 'other'):
            out.append(('deep %d %s' % (n, h), 'deep', dict(kw=dict(levels=n, how=h))))
    for h in ('cascade', 'back to back', 'parallel'):
        out.append(('twice ' + h, 'twice', dict(kw=dict(how=h))))
    for h in ('before', 'after', 'top', 'sub', 'twice'):
        out.append(('replaced ' + h, 'replaced', dict(kw=dict(how=h))))
    out.append(('replaced shared', 'replaced_shared', {}))
    out.append(('replaced deep', 'replaced_deep', {}))
    for k in range(6):
        out.append(('three ports order %d' % k, 'three', dict(kw=dict(perm=k))))
    return out
