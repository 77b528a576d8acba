"""plots of voltages show what was found"""
import numpy as np
from pyRFtk import plotVSWs, rfCircuit, rfRLC, rfTRL, rfBase
from hxutil import *

META = dict(
    bounds='trees of up to 3 levels with up to 5 lines (2 to 4 samples) and nodes, drawn with a '
           'recording stand-in for pyplot; positions, (complex) voltages, the pointer and the '
           'limits of the axes symbolic (the voltages of a circuit included)',
    assumptions=['the position at which the pointer is closest: lines with given numbers'])


class Recorder:
    """stands in for matplotlib.pyplot"""

    def __init__(self, figs=0, axes=0):
        self.figs, self.axes = figs, axes
        self.lines, self.texts, self.calls, self.on, self.notes = [], {}, [], {}, []
        self.number = 7
        self.canvas = self
        self.ax = self
        self.lim = (0., 1.), (0., 1.)

    def get_fignums(self):
        return list(range(self.figs))

    def subplots(self, **kw):
        self.calls.append(('subplots', kw))
        return self, self.ax

    def gcf(self):
        return self

    def get_axes(self):
        return [self] * self.axes

    def gca(self):
        return self.ax

    def subplot(self, *a):
        self.calls.append(('subplot', a))
        return self.ax

    def plot(self, xs, ys, *a, **kw):
        self.lines.append((list(xs), list(ys), a, kw.get('label')))

    def __getattr__(self, n):
        if n[:2] == '__':
            raise AttributeError(n)
        m = n[4:] if n[:4] == 'set_' else n
        if m in ('xlabel', 'ylabel', 'title'):
            return lambda t, *a, **k: self.texts.update({m: t})
        return lambda *a, **k: self.calls.append((n, a))

    def mpl_connect(self, name, fun):
        self.on[name] = fun

    def get_xlim(self):
        return self.lim[0]

    def get_ylim(self):
        return self.lim[1]

    def annotate(self, text, xy, **kw):
        r = Note(text, xy)
        self.notes.append(r)
        return r


class Note:
    def __init__(self, text, xy):
        self.text, self.xy, self.visible = text, xy, True

    def set_visible(self, v):
        self.visible = v


class Event:
    def __init__(self, ax, x, y):
        self.inaxes, self.xdata, self.ydata = ax, x, y


class Drawing:
    """with Drawing(ctx, recorder): pyplot of plotVSWs is the recorder"""

    def __init__(self, ctx, rec):
        self.ctx, self.rec = ctx, rec

    def __enter__(self):
        if self.ctx.symbolic:
            from engine.loader import PLOT
            PLOT[0] = self.rec
        else:
            import sys
            m = sys.modules['pyRFtk.plotVSWs']
            self.keep = m.plt
            m.plt = self.rec
        return self.rec

    def __exit__(self, *a):
        if self.ctx.symbolic:
            from engine.loader import PLOT
            PLOT[0] = None
        else:
            import sys
            sys.modules['pyRFtk.plotVSWs'].plt = self.keep


def tree(ctx, form):
    """a tree and what is to be seen of it: [(name, level, xs, Us)]"""
    def U(n):
        return ctx.cplx(n, s=(-9., 9.))

    x = [ctx.real('x%d' % i, s=(0., 2.)) for i in range(6)]
    ctx.assume(x[1] >= x[0] + .1)
    ctx.assume(x[2] >= x[1] + .1)
    line = lambda n: ([x[0], x[1], x[2]], [U(n + str(i)) for i in range(3)])
    pair = lambda n: ([x[3], x[3] + 1.], [U(n + '0'), U(n + '1')])
    node = lambda n: ([x[4]], [U(n)])
    if form == 'line':
        return {'C': {'A': line('A')}}
    if form == 'array':
        return {'C': {'A': tuple(np.array(v) for v in line('A'))}}
    if form == 'deep':
        return {'C': {'n': node('n'), 'A': line('A'),
                      'D': {'n': node('m'), 'B': pair('B'),
                            'E': {'_x': pair('u'), 'y': node('v')}}}}
    if form == 'two':
        return {'A': line('A'), 'B': pair('B'), 'n': node('n')}
    if form == 'back':
        u = U('a')
        return {'C': {'A': ([x[0], x[0], x[0]], [u, U('b'), u]),
                      'B': ([x[0], x[1], x[0]], [u, u, u]), 'n': node('n')}}
    if form == 'none':
        return {'C': {'A': pair('A'), 'n': ([None], [U('n')])}}
    if form == 'zero length':
        return {'C': {'A': ([x[0], x[0]], [U('a'), U('b')]), 'B': pair('B')}}


def leaves(T, lev=0, pre=()):
    for k, v in T.items():
        if isinstance(v, dict):
            yield from leaves(v, lev + 1, pre + (k,))
        else:
            yield pre + (k,), lev + 1, v[0], v[1]


def keep(T):
    return {k: keep(v) if isinstance(v, dict) else (list(v[0]), list(v[1])) for k, v in T.items()}


def unchanged(ctx, T, K):
    ctx.true('unchanged', list(T) == list(K))
    for k, v in T.items():
        if isinstance(v, dict):
            unchanged(ctx, v, K[k])
        else:
            for a, b in zip(list(v[0]) + list(v[1]), K[k][0] + K[k][1]):
                if b is None:
                    ctx.true('unchanged', a is None)
                else:
                    ctx.eq('unchanged', a, b)


def seen(ctx, rec, T, maxlev, nodes, points):
    """the lines of the plot are those of the tree"""
    drawn = list(rec.lines)
    for path, lev, xs, Us in leaves(T):
        xs, Us = list(xs), [np.abs(u) for u in Us]
        if xs[0] is None:
            continue
        isline = any(bool(x != xs[0]) for x in xs) or any(bool(u != Us[0]) for u in Us)
        if not isline and not nodes:
            continue
        name = path[-1] if path[-1][0] != '_' else ' ' + path[-1]
        if not drawn:
            ctx.true('drawn', False)
            return
        dx, dy, style, label = drawn.pop(0)
        ctx.true('label', label == (name if lev < maxlev else '_'))
        ctx.true('number', len(dx) == len(xs) == len(dy))
        for a, b in zip(dx + dy, xs + Us):
            ctx.eq('drawn', a, b)
        ctx.true('style', style == (('.-' if points else '-') if isline else 'd',))
    ctx.true('nothing else', not drawn)


def drawn(ctx, form, **kw):
    T = tree(ctx, form)
    K = keep(T)
    rec = Recorder()
    with Drawing(ctx, rec):
        plotVSWs(T, **kw)
    seen(ctx, rec, T, kw.get('maxlev', 4), kw.get('plotnodes'), kw.get('plotpoints'))
    unchanged(ctx, T, K)
    # the figure
    Id = kw.get('Id') or (list(T)[0] if len(T) == 1 and 'num' not in kw else None)
    ctx.true('title', rec.texts['title'] == str(Id))
    ctx.true('axes', rec.texts['xlabel'] == 'x [m]' and 'ylabel' in rec.texts)
    ctx.true('figure', [c[1].get('num') for c in rec.calls if c[0] == 'subplots'] ==
             [kw['num'] if 'num' in kw else Id])


def again(ctx, axes):
    """on the figure there is"""
    T = tree(ctx, 'line')
    rec = Recorder(1, axes)
    with Drawing(ctx, rec):
        plotVSWs(T)
    seen(ctx, rec, T, 4, False, False)
    ctx.true('figure', not any(c[0] == 'subplots' for c in rec.calls))
    ctx.true('axes', any(c[0] == 'subplot' for c in rec.calls) == (not axes))
    with Drawing(ctx, rec):
        ctx.raises('Id and num', ValueError, plotVSWs, T, Id='x', num=3)


def circuit(ctx, nodes):
    """the voltages found by a circuit"""
    f, Z = ctx.real('f', 0, s=(2e7, 6e7)), ctx.real('Z', 0, s=(10., 90.))
    C = rfCircuit(Zbase=Z, Id='top')
    C.addblock('a', rfTRL(L=.5, Z0TL=30., dx=300., Zbase=Z))
    C.addblock('r', rfRLC(Rs=10., Zbase=Z))
    C.connect('a.2', 'r.s')
    C.terminate('r.p', Z=25.)
    E = {'a.1': ctx.real('E', 0, s=(1., 9.))}
    U, where, T = C.maxV(f, E)
    rec = Recorder()
    with Drawing(ctx, rec):
        plotVSWs(T, plotnodes=nodes)
    sol = C.Solution(f, E)
    n = 0
    for xs, ys, style, label in rec.lines:
        if label == 'a':
            n += 1
            ctx.eq('line', np.array([xs[0], xs[-1]]), np.array([0., .5]))
            for y, p in ((ys[0], 'a.1'), (ys[-1], 'a.2')):
                ctx.eq('ends', y * y, np.real(sol[p][0] * np.conj(sol[p][0])))
        elif label in sol:
            n += 1
            ctx.eq('node', ys[0] * ys[0], np.real(sol[label][0] * np.conj(sol[label][0])))
    ctx.true('lines', n >= (3 if nodes else 1))


def pointer(ctx, form):
    """pointing at the plot shows what is closest"""
    x, y = ctx.real('px', s=(-1., 3.)), ctx.real('py', s=(-1., 6.))
    s = 1.5 if form in ('two', 'deep') else ctx.real('s', .1, s=(.2, 3.))
    T = {'one': {'C': {'A': ([0., 1.], [1., 3.])}},
         'two': {'C': {'A': ([0., 1.], [1., 3.]), 'B': ([1.5, 1., .5], [2., -3.5j, 4.])}},
         'nodes': {'C': {'n': ([.5], [2.]), 'A': ([1., 2.], [1., 1.5]), 'm': ([None], [1.])}},
         'deep': {'C': {'A': ([0., 1.], [1., 3.]), 'D': {'n': ([1.], [-3.]),
                                                         'E': {'B': ([1., 2.], [3., 1.])}}}},
         'equal': {'C': {'A': ([0., 0., 1.], [2., 2., 2.]), 'B': ([1., 1.], [3., 3.])}}}[form]
    rec = Recorder()
    rec.lim = (0., 2. * s), (1., 3.)
    with Drawing(ctx, rec):
        plotVSWs(T)
        before = len(rec.notes)
        rec.on['motion_notify_event'](Event(None, x, y)) # elsewhere
        ctx.true('elsewhere', len(rec.notes) == before)
        rec.on['motion_notify_event'](Event(rec.ax, x, y))
    ctx.true('shown', len(rec.notes) == before + 1 and rec.notes[-1].visible and
             not rec.notes[0].visible)
    note = rec.notes[-1]
    tx, ty = note.xy
    shown = note.text.split('\n')[1]
    ctx.true('unit', shown[-2:] == 'kV')
    ctx.le('voltage', np.abs(float(shown[:-2]) - ty), .00051)
    k2 = s * s

    def d2(a, b):
        return (a - x) ** 2 + k2 * (b - y) ** 2
    name = note.text.split('\n')[0]
    t = ctx.real('t', 0, 1, s=(0., 1.))
    found = False
    for path, lev, xs, Us in leaves(T):
        if xs[0] is None:
            continue
        Us = [abs(u) for u in Us]
        segs = list(zip(xs, Us, xs[1:], Us[1:])) or [(xs[0], Us[0], xs[0], Us[0])]
        for x1, u1, x2, u2 in segs:
            # not farther than any point
            ctx.le('closest', d2(tx, ty), d2(x1 + t * (x2 - x1), u1 + t * (u2 - u1)), tol=1e-9)
        if name == '.'.join(path):
            found = True
            on = False
            for x1, u1, x2, u2 in segs:
                e = 0. if ctx.symbolic else 1e-6
                z = (tx - x1) * (u2 - u1) - (ty - u1) * (x2 - x1)
                if bool(z == 0. if ctx.symbolic else abs(z) <= e) and bool(
                        min(x1, x2) - e <= tx) and bool(tx <= max(x1, x2) + e) and bool(
                        min(u1, u2) - e <= ty) and bool(ty <= max(u1, u2) + e):
                    on = True
                    break
            ctx.true('on it', on)
    ctx.true('name', found)


def cases(tier):
    out = []
    for form in ('line', 'array', 'deep', 'two', 'none', 'zero length', 'back'):
        for i, kw in enumerate(({}, dict(plotnodes=True), dict(plotpoints=True, maxlev=2),
                                dict(Id='x'), dict(num=3, maxlev=1))):
            if form in ('deep', 'two') and i > 2 and tier == 'quick':
                continue
            out.append(('%s %s' % (form, ' '.join('%s=%s' % v for v in kw.items())), 'drawn',
                        dict(kw=dict(form=form, **kw))))
    for a in (0, 1):
        out.append(('again %d' % a, 'again', dict(kw=dict(axes=a))))
    for n in (False, True):
        out.append(('circuit %s' % n, 'circuit', dict(kw=dict(nodes=n))))
    for f in ('one', 'two', 'nodes', 'deep', 'equal'):
        out.append(('pointer ' + f, 'pointer', dict(kw=dict(form=f))))
    return out
