"""looking at objects at any time shows what they are and changes nothing"""
import re
import copy
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL, rfObject, rfCoupler, rfArcObj
from hxutil import *

META = dict(
    bounds='circuits of every kind of block (tables, arrays, shared objects, circuits nested up '
           'to 3 levels) at every stage of their construction and use (up to 6 steps, each with '
           'or without looking at the circuit); all values, positions, matrices, frequencies and '
           'impedances symbolic',
    assumptions=['the circuit equations are non singular'])


TA = np.array([[.5, .25j], [.125, .25 + .5j]])
TB = np.array([[.25, .125j], [.375, .5j]])


def values(ctx):
    f = ctx.real('f', 1e6, s=(2e7, 6e7))
    return dict(f=f, f2=f + ctx.real('df', 1, s=(1e6, 1e7)), Z=ctx.real('Z', 1, s=(10., 90.)),
                R=ctx.real('R', .5, s=(1., 50.)), S=ctx.cmat('S', 2), T=ctx.cmat('T', 2),
                n=ctx.real('n', .5, 100., s=(5., 40.)), p=ctx.real('p', s=(-3., 3.)),
                q=ctx.real('q', s=(-3., 3.)), L=ctx.real('L', .25, 1., s=(.3, 1.)))


def inner(v):
    s = rfCircuit(Zbase=v['Z'], Id='s')
    s.addblock('r', rfRLC(Rs=v['R'], Zbase=v['Z']), relpos=v['q'])
    s.addblock('m', v['S'], ports=['x', 'y'], relpos=.5)
    s.connect('r.p', 'm.x')
    return s


def start(C, v):
    C.addblock('s', inner(v), ports={'r.s': 'a'}, relpos=v['p'])


def blocks(C, v):
    C.addblock('c', rfRLC(Rp=30.), params={'Rp': 20.}, relpos=1.)
    C.addblock('u', rfTRL(L=v['L'], Z0TL=30., dx=300.), relpos=v['q'])
    C.addblock('t', rfBase(Ss=[TA, TB], fs=[v['f'], v['f2']], ports=['i', 'o'],
                           xpos=[v['p'], 2.]), relpos=v['q'])


def shared(C, v):
    o = rfRLC(Rs=v['n'], Zbase=v['Z'])
    a = TA.copy()
    C.addblock('o1', o)
    C.addblock('o2', o, ports=['k', 'l'], relpos=v['p'])
    C.addblock('a1', a)
    C.addblock('a2', a, relpos=v['q'])
    C.connect('o1.p', 'o2.k', 'a1.1', 'a2.1')


def namesakes(C, v):
    """different blocks that have the same Id and the same values"""
    a, b = (rfRLC(Rs=v['n'], Zbase=v['Z'], Id='same') for _ in range(2))
    C.addblock('n1', a)
    C.addblock('n2', b, relpos=v['p'])
    C.addblock('n3', a, relpos=v['q'])
    C.addblock('n4', inner(v))
    C.addblock('n5', inner(v), relpos=v['p'])
    C.connect('n1.p', 'n2.p', 'n3.s')


def connect(C, v):
    C.connect('s.m.y', 'c.s', 'j')
    C.connect('c.p', 'u.1')


def deep(C, v):
    s, t = inner(v), rfCircuit(Zbase=v['Z'], Id='t')
    t.addblock('s', s, relpos=v['p'])
    t.addblock('e', rfArcObj(v['n'] * 1e-9, Zbase=v['Z'], ports=['g']))
    t.connect('s.m.y', 'e.g', 'w')
    C.addblock('t', t, relpos=v['q'])


def finish(C, v):
    C.terminate(C.ports[-1], Z=v['n'])


def short(C, v):
    C.terminate(C.ports[0], RC=.5)


def evaluate(C, v):
    C.getS(v['f'])


def evaluate2(C, v):
    C.getS([v['f2'], v['f']], Zbase=20.)


def setting(C, v):
    C.set(C.listBlocks()[-1] + '.Rs', v['n']) if 'u' not in C.blocks else C.set('u.L', v['L'] / 2)


def solution(C, v):
    C.Solution(v['f'], {p: .5 for p in C.ports})


def deembed(C, v):
    C.addblock('d', np.array([[.5, .25j], [.125, .25 + .5j]]), relpos=v['q'])
    C.deembed({'d.1': 'new'}, {'d.2': 's.m.y'})


HISTORIES = {
    'empty': [],
    'nested': [start, finish, evaluate, evaluate2],
    'build': [start, blocks, connect, evaluate],
    'build and use': [start, blocks, connect, finish, short, evaluate],
    'set': [start, blocks, connect, evaluate, setting],
    'set and use': [start, blocks, connect, evaluate, setting, evaluate],
    'namesakes': [namesakes, evaluate, finish],
    'shared': [shared, start, evaluate, finish, evaluate],
    'deep': [deep, evaluate],
    'deep and use': [deep, finish, evaluate, solution],
    'late': [start, evaluate, finish, solution],
    'deembed': [start, deembed, evaluate],
    'deembed two': [start, deep, deembed, finish],
}


def num(t):
    return float(t.replace('_', ''))


def near(ctx, label, text, x, h):
    d = num(text) - x
    ctx.le(label, d, h)
    ctx.le(label, -d, h)


def depth(C):
    """all paths with the object and its position"""
    r = []
    for k, b in C.blocks.items():
        r.append((k, b['object']))
        if hasattr(b['object'], 'blocks'):
            r += [(k + '.' + q, o) for q, o in depth(b['object'])]
    return r


def own(C, text):
    """the lines that are about the blocks of C itself"""
    cur, got, order = None, {}, []
    for l in text.split('\n'):
        m = re.match(r'^\|   (\S+): $', l)
        if m:
            cur = m.group(1)
            got[cur] = []
            order.append(cur)
            continue
        m = re.match(r'^\|   \|   (\S+) +(?:-> (\S+) +)?@ +(\S+)m$', l)
        if m and cur is not None:
            got[cur].append(m.groups())
        m = re.match(r'^\|   (\S+) *: --> (\S+) at ', l)
        if m:
            got[m.group(1)] = m.group(2)
            order.append(m.group(1))
    return got, order


def look(ctx, C, evaluated):
    for full in (0, 1, 2, 5):
        t = C.__str__(full)
        lines = t.split('\n')
        i, j = lines.index('| ports: ['), lines.index('| ]')
        ctx.true('the ports are shown', [l[1:].strip() for l in lines[i + 1:j]] ==
                 (list(C.ports) or ['']))
        ctx.true('the name is shown', C.Id in lines[0])
        ev = [l for l in lines if l.startswith('+ last evaluation')]
        if full and len(C.M):
            ctx.true('the last evaluation is shown', len(ev) == (evaluated is not None))
            if ev:
                near(ctx, 'the frequency is shown', ev[0].split()[4], evaluated, .06)
        ctx.true('the empty circuit is shown', ('<empty>' in t) == (not len(C.M) and full > 0))
        if not full or not len(C.M):
            continue
        got, order = own(C, t)
        ctx.true('the blocks are shown', sorted(got) == sorted(C.blocks))
        seen = []
        for k in order:
            # only a block that is shown already is referred to
            i = id(C.blocks[k]['object'])
            ctx.true('referred to', isinstance(got[k], str) == (i in seen))
            seen.append(i)
        for k, b in C.blocks.items():
            if isinstance(got[k], str):
                ctx.true('shared', C.blocks[got[k]]['object'] is b['object'])
                continue
            o = b['object']
            ctx.true('the ports of the block', [x[0] for x in got[k]] == list(b['ports']))
            arr = isinstance(o, np.ndarray)
            if not arr:
                ctx.true('the ports of the object', [x[1] for x in got[k]] == list(o.ports))
            for i, x in enumerate(got[k]):
                near(ctx, 'position', x[2], b['xpos'] + (0. if arr else o.xpos[i]), 1e-4)
    ctx.true('text', len(C.asstr(2)) > 0 and len(repr(C)) > 0 and len(str(C)) > 0)
    ctx.true('length', len(C) == len(C.ports))
    D = depth(C)
    ctx.true('list of blocks', list(C.listBlocks()) == [k for k, o in D])
    for k, o in D:
        ctx.true('findObj', C.findObj(k) is o)
        ctx.true('object', C.object(k) is o)
        ctx.true('unknown', C.findObj(k + '.nix') is None if hasattr(o, 'blocks') else True)
        str(o), repr(o)
        if not isinstance(o, np.ndarray):
            o.asstr(2), len(o)
    ctx.true('unknown', C.findObj('nix') is None)
    for k in list(C.ports):
        C.getpos(k)
    if len(C.ports):
        C.resolve_xpos()


def state(C, v, M):
    if not len(C.M):
        return []
    r = [list(C.ports)]
    r += [C.getS(v[f], **kw) for f, kw in (('f', {}), ('f2', {}), ('f', dict(Zbase=30.)))]
    r += [np.array(C.xpos)]
    s = C.Solution(v['f'], {p: .5 - .25j * i for i, p in enumerate(C.ports)})
    r += [sorted(s)] + [np.array(s[k]) for k in sorted(s)]
    return r


def run(ctx, what):
    v = values(ctx)
    C, D = rfCircuit(Zbase=v['Z'], Id='C'), rfCircuit(Zbase=v['Z'], Id='C')
    look(ctx, C, None)
    last = None
    for h in HISTORIES[what]:
        h(C, v)
        if h is setting:
            last = None
        if h in (evaluate, evaluate2, solution):
            last = v['f']
        elif last is not None and h in (finish, short, deembed):
            last = None if C.S is None else last
        look(ctx, C, last)
        h(D, v)
        if len(D.ports):
            D.resolve_xpos()
    K = C.copy()
    look(ctx, K, last)
    look(ctx, C, last)
    a, b, c = state(C, v, 1), state(D, v, 1), state(K, v, 1)
    for x, y, z in zip(a, b, c):
        if isinstance(x, list):
            ctx.true('ports', x == y and x == z)
        else:
            ctx.eq('results', x, y)
            ctx.eq('results of the copy', z, y)


def element(ctx, what):
    v = values(ctx)
    f, Z = v['f'], v['Z']
    if what == 'rlc':
        kw = dict(Rs=v['R'], Ls=v['n'] * 1e-9, Cs=v['L'] * 1e-12, Rp=v['R'] * 2,
                  Lp=v['L'] * 1e-9, Cp=v['n'] * 1e-12)
        scale = dict(Rs=('Ohm', 1.), Ls=('nH', 1e-9), Cs=('pF', 1e-12), Rp=('Ohm', 1.),
                     Lp=('nH', 1e-9), Cp=('pF', 1e-12))
        for sub in (tuple(kw), ('Rs',), ('Cs', 'Lp'), ()):
            o, w = (rfRLC(Zbase=Z, **{k: kw[k] for k in sub}) for _ in range(2))
            for i in range(3):
                t = o.__str__(1)
                got = re.findall(r'^\|  (\w+) = (\S+) (\w+) $', t, re.M)
                ctx.true('elements', [(k, u) for k, _, u in got] ==
                         [(k, scale[k][0]) for k in kw if k in sub])
                for k, x, u in got:
                    near(ctx, 'value of ' + k, x, kw[k] / scale[k][1],
                         kw[k] / scale[k][1] * 1e-5)
                str(o), repr(o), o.asstr(1)
                if i:
                    ctx.eq('S', o.getS(f * i), w.getS(f * i))
    else:
        fn = {
            'trl': lambda: rfTRL(L=v['L'], Z0TL=v['R'], Zbase=Z, dx=300.),
            'lossy': lambda: rfTRL(L=v['L'], LTL=v['R'] * 1e-9, CTL=1e-10, rTL=v['n'] / 100,
                                   Zbase=Z, dx=300.),
            'arc': lambda: rfArcObj(v['R'] * 1e-9, Zbase=Z, ports=['a']),
            'coupler': lambda: rfCoupler(kC=.5, Zbase=Z),
            'base': lambda: rfBase(Ss=[TA, TB], fs=[f, v['f2']], Zbase=Z,
                                   ports=['i', 'o'], xpos=[v['p'], v['q']]),
            'table': lambda: tab(v)}[what]
        o, w = fn(), fn()
        last = None
        for g in (None, f, v['f2'], f):
            for full in (0, 1, 2):
                t = o.__str__(full) + repr(o)
                if hasattr(o, 'asstr'):
                    o.asstr(full)
                len(o)
                if what == 'base' and full:
                    got = re.findall(r"^\| '(\S+)' +@ +(\S+)m *$", t, re.M)
                    ctx.true('ports', [x[0] for x in got] == list(o.ports))
                    for x, y in zip(got, o.xpos):
                        near(ctx, 'position', x[1], y, 1e-3)
                if what == 'trl' and full:
                    near(ctx, 'length', re.findall(r'length: (\S+)m;', t)[0], v['L'], 1e-3)
                if g is not None and what in ('trl', 'lossy', 'table') and full:
                    m = re.findall(r'last evaluation at (\S+) Hz', t)
                    ctx.true('evaluated', len(m) == 1)
                    near(ctx, 'frequency', m[0], last, .06)
            if g is not None:
                ctx.eq('S', o.getS(g), w.getS(g))
                ctx.eq('S', o.getS(g, Zbase=20.), w.getS(g, Zbase=20.))
            else:
                o.getS(f), w.getS(f)
            last = g or f
        ctx.true('ports', list(o.ports) == list(w.ports))
        if what in ('trl', 'lossy'):
            for x in (o, w):
                x.set(L=.125)
            str(o)
            ctx.eq('S', o.getS(f), w.getS(f))
            E = {p: .5 for p in o.ports}
            str(o)
            a, b = o.maxV(f, E), w.maxV(f, E)
            ctx.eq('maximum', a[0], b[0])


def tab(v):
    o = rfObject(ports=['s', 'p'], Zbase=v['Z'], interp='RI', interpkws=dict(kind=1))
    o.setS([v['f'], v['f2']], [v['S'], v['T']])
    return o


def cases(tier):
    out = []
    for w in HISTORIES:
        out.append(('circuit ' + w, 'run', dict(kw=dict(what=w))))
    for w in ('rlc', 'trl', 'lossy', 'arc', 'coupler', 'base', 'table'):
        out.append(('element ' + w, 'element', dict(kw=dict(what=w))))
    return out
