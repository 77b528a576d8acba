"""the voltage trees of maxV: scaleVSW, strVSW and str_dict"""
import copy
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL, rfObject, rfCoupler, rfArcObj
from pyRFtk import scaleVSW, strVSW, str_dict
from engine import text
from hxutil import *

META = dict(
    bounds='the trees of circuits with leaves of every kind of object, nested up to 2 levels, '
           'and trees of given nodes and lines of up to 3 points; all voltages, positions and '
           'scale factors symbolic',
    assumptions=['numbers written with 3 decimals are read as written (the case "digits" bounds '
                 'the error of the digits themselves)'])

LEAVES = ('trl', 'rlc', 'object', 'base', 'coupler', 'arc', 'array', 'circuit', 'empty')


def circuit(ctx, kind, Z, f, Id='C'):
    """a circuit with a leaf of this kind; its excitation"""
    S2 = np.array([[.5, .25j], [.125, -.25]])
    x = ctx.real('x_' + Id, s=(-2., 2.))
    C = rfCircuit(Zbase=Z, Id=Id)
    C.addblock('a', rfBase(Ss=[S2], fs=[f], Zbase=Z, ports=['1', '2'], xpos=[0., 1.]), relpos=x)
    if kind == 'trl':
        ob = rfTRL(L=.5, Zbase=Z, Z0TL=50., dx=.25, ports=['s', 'p'])
    elif kind == 'rlc':
        ob = rfRLC(Rs=20., Zbase=Z, ports=['s', 'p'])
    elif kind == 'object':
        ob = rfObject(S2, Zbase=Z, ports=['s', 'p'])
    elif kind == 'base':
        ob = rfBase(Ss=[S2], fs=[f], Zbase=Z, ports=['s', 'p'])
    elif kind == 'coupler':
        ob = rfCoupler(kC=.5, Zc=Z, L=.25, ports=['s', 'p', 'u', 'v'], Zbase=Z)
    elif kind == 'arc':
        ob = rfArcObj(1e-7, ports=['s'], Zbase=Z)
    elif kind == 'array':
        ob = S2
    elif kind == 'circuit':
        ob = circuit(ctx, 'base', Z, f, Id + 'i')
    elif kind == 'deep':
        ob = circuit(ctx, 'circuit', Z, f, Id + 'd')
    if kind != 'empty':
        C.addblock('b', ob, relpos=-.5,
                   ports=['s', 'p'] if kind == 'array' else None)
        p = 's' if hasattr(ob, 'ports') and 's' in ob.ports else \
            ob.ports[0] if hasattr(ob, 'ports') else 's'
        C.connect('a.2', 'b.' + p)
    return C


def flat(tree, path=()):
    """[(path, k, x, V)]"""
    out = []
    for key, v in tree.items():
        if isinstance(v, dict):
            out += flat(v, path + (key,))
        elif isinstance(v, tuple) and len(v) == 2:
            xs, vs = v
            if hasattr(vs, '__len__'):
                assert len(xs) == len(vs), key
                out += [(path + (key,), k, xs[k], vs[k]) for k in range(len(xs))]
            else:
                out.append((path + (key,), None, xs, vs))
        else:
            raise AssertionError('%s: %s' % (key, type(v)))
    return out


def tree(ctx, kind):
    f, Z = 5e7, 40.
    C = circuit(ctx, kind, Z, f)
    E = {p: .5 if k == 0 else .25j * k for k, p in enumerate(sorted(C.ports))}
    a = ctx.real('a', 0, s=(1., 9.))
    return C.maxV(f, {p: a * e for p, e in E.items()}, Id='top')[2], (C, f, E, a)


def scaled(ctx, kind):
    V, (C, f, E, a) = tree(ctx, kind)
    before = flat(V)
    ctx.true('leaves', len(before) > 2 and
             all(isinstance(p, str) for path, _, _, _ in before for p in path))
    s = ctx.real('s', 0, s=(.1, 9.))
    r = scaleVSW(V, s)
    after = flat(V)
    ctx.true('same nodes', [x[:2] for x in before] == [x[:2] for x in after])
    for b, c in zip(before, after):
        ctx.eq('position', c[2], b[2])
        ctx.eq('voltage', c[3], s * b[3])
    # the tree of the scaled excitation
    W = flat(C.maxV(f, {p: s * a * e for p, e in E.items()}, Id='top')[2])
    ctx.true('same tree', [x[:2] for x in W] == [x[:2] for x in after])
    for b, c in zip(W, after):
        ctx.eq('position (scaled excitation)', c[2], b[2])
        ctx.eq('voltage (scaled excitation)', c[3], b[3])


def given(ctx):
    """trees put together by hand: lists, arrays, scalars"""
    cx = lambda n: ctx.cplx(n)
    r = lambda n: ctx.real(n, s=(-9., 9.))
    x = [r('x%d' % i) for i in range(6)]
    v = [cx('v%d' % i) for i in range(6)]
    T = {'top': {'n': ([x[0]], [v[0]]), 'sub': {'l': ([x[1], x[2]], np.array([v[1], v[2]])),
                                               'm': (np.array([x[3]]), [v[3]])},
                 's': (x[4], v[4]), 'empty': {}}}
    s = cx('s')
    before = flat(T)
    scaleVSW(T, s)
    after = flat(T)
    ctx.true('nodes', [b[:2] for b in before] == [a[:2] for a in after] and len(after) == 5)
    for b, a in zip(before, after):
        ctx.eq('position', a[2], b[2])
        ctx.eq('voltage', a[3], s * b[3])
    ctx.raises('no tree', ValueError, scaleVSW, {'a': 3.}, 2.)
    ctx.raises('no tree', ValueError, scaleVSW, {'a': {'b': (1., 2., 3.)}}, 2.)


def parse(s):
    """[(path, k, x, V)] of the text of strVSW"""
    out, path = [], []
    for line in s.split('\n'):
        if not line.strip():
            continue
        if ':' in line:
            k, rest = line.split(':', 1)
            x, v = rest.split(',')
            ind = 0
            out.append((tuple(path), None if k.strip() == 'node' else int(k) - 1,
                        None if '<' in x else float(x), float(v)))
        else:
            n = len(line) - len(line.lstrip(' '))
            path = path[:n] + [line.strip()]
    return out


def listed(ctx, kind):
    text_exact(ctx)
    if kind == 'given':
        r = lambda n: ctx.real(n, s=(-9., 9.))
        x = [r('x%d' % i) for i in range(5)]
        v = [ctx.real('v%d' % i, 0, s=(1., 9.)) for i in range(6)]
        V = {'top': {'n': ([x[0]], [v[0]]), 'sub': {'l': ([x[1], x[2]], np.array([v[1], v[2]])),
                                                   'm': (np.array([x[3]]), [v[3]]),
                                                   'none': ([None], [v[5]])},
                     's': (x[4], v[4])}}
    else:
        V, _ = tree(ctx, kind)
    want = flat(V)
    got = parse(strVSW(V))
    ctx.true('lines', [g[0] for g in got] == [w[0] for w in want])
    ctx.true('numbers', [g[1] for g in got] == [w[1] for w in want])
    for g, w in zip(got, want):
        if w[2] is None:
            ctx.true('no position', g[2] is None)
        else:
            ctx.true('position', abs_le(ctx, g[2], w[2]))
        ctx.true('voltage', abs_le(ctx, g[3], w[3]))
    ctx.true('tree not changed', len(flat(V)) == len(want))


def abs_le(ctx, a, b):
    return bool(np.abs(a - b) <= 0.00051)


def text_exact(ctx):
    text.EXACT[0] = 3


def digits(ctx):
    """the written digits"""
    x, v = ctx.real('x', s=(-90., 90.)), ctx.real('v', 0, s=(0., 900.))
    (p, k, gx, gv), = parse(strVSW({'a': ([x], [v])}))
    ctx.true('name', p == ('a',) and k == 0)
    for g, w in ((gx, x), (gv, v)):
        ctx.le('digits', g - w, .00051)
        ctx.le('digits', w - g, .00051)


def summary(ctx, kind):
    """str_dict: one line per node or line, whatever was printed before"""
    V, _ = tree(ctx, kind)
    want = []

    def rec(t, lev):
        for k, v in t.items():
            if isinstance(v, dict):
                want.append((lev, k, '{'))
                rec(v, lev + 1)
            else:
                want.append((lev, k, len(v[0])))
    rec(V, 1)
    for again in range(2):
        s = str_dict(V)
        got = []
        for line in s.split('\n'):
            if ':' not in line:
                continue
            lev = (len(line) - len(line.lstrip(' '))) // 4
            k, rest = line.strip().split(': ', 1)
            got.append((lev, k, '{' if rest == '{' else 1 if rest.startswith('node') else
                        int(rest.split('[')[1].split()[0]) if rest.startswith('line') else rest))
        ctx.true('summary', got == want)
        ctx.true('braces', s.count('{') == s.count('}') == 1 + sum(w[2] == '{' for w in want))


def cases(tier):
    out = []
    for k in LEAVES:
        out.append(('scaled ' + k, 'scaled', dict(kw=dict(kind=k))))
    for k in LEAVES:
        out.append(('listed ' + k, 'listed', dict(kw=dict(kind=k))))
        out.append(('summary ' + k, 'summary', dict(kw=dict(kind=k))))
    out.append(('given', 'given', {}))
    out.append(('listed given', 'listed', dict(kw=dict(kind='given'))))
    out.append(('digits', 'digits', {}))
    if tier == 'thorough':
        for fn in ('scaled', 'listed', 'summary'):
            out.append((fn + ' deep', fn, dict(kw=dict(kind='deep'))))
    return out
