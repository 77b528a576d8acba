"""rfCircuit: the result does not depend on how the circuit was built"""
import itertools
import numpy as np
from pyRFtk import rfCircuit, rfBase
from hxutil import *
from hxcirc import *

META = dict(
    bounds='the structures of C09 (up to 4 blocks, junctions of up to 5 ports), built in '
           'reversed, early and late orders, with the arguments of connect rotated and '
           'reversed; all orders of up to 4 external ports',
    assumptions=['the circuit equations are non singular'])


def make(ctx, name):
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    ext = STRUCT(name, N, lambda n: ctx.real(n, 0, s=(1., 90.)))
    return f, Z, N, ext


def orders(N):
    """equivalent sequences of construction"""
    ops = N.order
    B = [o for o in ops if o[0] == 'block']
    R = [o for o in ops if o[0] != 'block']
    terms = [o for o in R if o[0] == 'terminate']
    conns = [o for o in R if o[0] == 'connect']
    out = {'as is': ops}
    out['blocks reversed'] = B[::-1] + R
    out['blocks rotated'] = B[1:] + B[:1] + R
    out['arguments reversed'] = B + [o if o[0] != 'connect' else ('connect',) + o[:0:-1]
                                     for o in R]
    out['arguments rotated'] = B + [o if o[0] != 'connect' else
                                    ('connect',) + o[2:] + o[1:2] for o in R]
    # as early as possible
    for key, BB in (('early', B), ('early reversed', B[::-1])):
        seq, done, todo = [], set(), list(R)
        for b in BB:
            seq.append(b)
            done.add(b[1])
            for o in list(todo):
                names = [p for p in (o[1:] if o[0] == 'connect' else o[1:2])]
                if any(q in todo[:todo.index(o)] for q in ()):
                    continue
                if all(p.split('.')[0] in done for p in names if '.' in p) and not any(
                        set(names) & set(q[1:] if q[0] == 'connect' else q[1:2])
                        for q in todo[:todo.index(o)]):
                    seq.append(o)
                    todo.remove(o)
        assert not todo
        out[key] = seq
    return out


def built(ctx, name, how):
    f, Z, N, ext = make(ctx, name)
    C = N.build(orders(N)[how])
    N.check(how, C, ext)


def portnames(ctx, name, k, how):
    """the announced order of the external ports is that of S"""
    f, Z, N, ext = make(ctx, name)
    order = list(list(itertools.permutations(ext))[k])
    given = list(order)
    if how == 'kwarg':
        C = N.build(Portnames=given)
    else:
        C = N.build()
        C.Portnames = given
    S = C.getS(f)
    ctx.true('port order', list(C.ports) == order)
    ctx.eq('S in the announced order', S, N.smatrix(order))
    ctx.eq('again', C.getS(f), S)


def wrongports(ctx):
    f, Z, N, ext = make(ctx, 'cascade')
    for k, names in enumerate((['a.1'], ['a.1', 'b.2', 'c.1'], ['a.1', 'a.2'],
                               ['a.1', 'a.1'])):
        C = N.build(Portnames=names)
        ctx.raises('wrong ports %d' % k, ValueError, C.getS, f)


def permuted(ctx, name, perm):
    """blocks whose ports are listed in another order"""
    f, Z, N, ext = make(ctx, name)
    P = Net(ctx, f, Z)
    for op in N.order:
        if op[0] != 'block':
            P.order.append(op)
            continue
        ports, S, Zb, o = N.blocks[op[1]]
        n = len(ports)
        idx = list(range(n))[::-1] if perm == 'reversed' else [(i + 1) % n for i in range(n)]
        P.block(op[1], [ports[i] for i in idx], mat=S[idx, :][:, idx], Z=Zb)
    C = P.build()
    N.check('ports ' + perm, C, ext)


def renamed(ctx, name):
    """names of blocks and ports carry no meaning"""
    f, Z, N, ext = make(ctx, name)
    R = Net(ctx, f, Z)
    ren = {}
    alias = {'a': 'b', 'b': 'a', 'c': 'ab', 'l': '1'}
    for op in N.order:
        if op[0] == 'block':
            ports, S, Zb, o = N.blocks[op[1]]
            nn = alias[op[1]]
            pp = ['p' * (i + 1) for i in range(len(ports))]
            for p, q in zip(ports, pp):
                ren[op[1] + '.' + p] = nn + '.' + q
            R.block(nn, pp, mat=S, Z=Zb)
        elif op[0] == 'connect':
            R.conn(*[ren.setdefault(p, 'a' + p) for p in op[1:]])
        else:
            R.term(ren[op[1]], **op[2])
    C = R.build()
    S = C.getS(f)
    back = {q: p for p, q in ren.items()}
    ports = [back[p] for p in C.ports]
    ctx.true('external ports', sorted(ports) == sorted(ext))
    ctx.eq('S', S, N.smatrix(ports))


def split(ctx, n, how):
    """a junction of n ports is the same as several smaller ones"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    N = Net(ctx, f, Z)
    for i in range(n):
        N.block('b%d' % i, 2, 'generic' if i < 2 else 'num')
    ports = ['b%d.1' % i for i in range(n)]
    ext = ['b%d.2' % i for i in range(n)]
    if how == 'one':
        N.conn(*ports)
    elif how == 'chain':
        N.conn(ports[0], ports[1], 'J0')
        for i in range(2, n - 1):
            N.conn('J%d' % (i - 2), ports[i], 'J%d' % (i - 1))
        N.conn('J%d' % (n - 3), ports[n - 1])
    else:
        N.conn(*ports[:2], 'J').conn(*(['J'] + ports[2:]))
    C = N.build()
    S = C.getS(f)
    M = Net(ctx, f, Z)
    M.blocks, M.order = N.blocks, [o for o in N.order if o[0] == 'block'] + [
        ('connect',) + tuple(ports)]
    ctx.true('external ports', sorted(C.ports) == ext)
    ctx.eq('S', S, M.smatrix(C.ports))


def cases(tier):
    out = []
    names = ['cascade', 'cascade3', 'three port and two port', 'load', 'double', 'loop',
             'named port', 'shunt', 'junction3', 'junction4', 'two junctions',
             'junction used later', 'junction extended', 'terminations',
             'terminated junction', 'terminated port', 'junction5']
    for s in names:
        for h in ('blocks reversed', 'blocks rotated', 'arguments reversed',
                  'arguments rotated', 'early', 'early reversed'):
            out.append(('%s %s' % (s, h), 'built', dict(kw=dict(name=s, how=h))))
    for s, n in (('cascade', 2), ('three port and two port', 3), ('shunt', 3), ('junction3', 3),
                 ('two named ports', 2)):
        for k in range([1, 1, 2, 6, 24][n]):
            for h in ('kwarg', 'attribute'):
                out.append(('portnames %s %d %s' % (s, k, h), 'portnames',
                            dict(kw=dict(name=s, k=k, how=h))))
    for k in (5, 9, 17, 22):
        out.append(('portnames separate %d' % k, 'portnames',
                    dict(kw=dict(name='separate', k=k, how='kwarg'))))
    out.append(('wrong port names', 'wrongports', {}))
    for s in ('cascade', 'three port and two port', 'double', 'loop', 'junction4',
              'terminations', 'two junctions'):
        for p in ('reversed', 'rotated'):
            out.append(('permuted %s %s' % (s, p), 'permuted', dict(kw=dict(name=s, perm=p))))
    for s in ('cascade3', 'load', 'double', 'shunt', 'junction4', 'terminations',
              'junction extended'):
        out.append(('renamed ' + s, 'renamed', dict(kw=dict(name=s))))
    for n in (3, 4, 5):
        for h in ('one', 'chain', 'pair'):
            if n > 3 or h != 'pair':
                out.append(('split %d %s' % (n, h), 'split', dict(kw=dict(n=n, how=h))))
    return out
