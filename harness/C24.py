"""maxfun: the maximum of a sampled curve"""
import numpy as np
from pyRFtk import maxfun
from hxutil import *

META = dict(
    bounds='1 to 5 samples at increasing or decreasing positions (equidistant for more than 3 '
           'samples); all values and positions symbolic',
    assumptions=['the positions differ'])


def grid(ctx, n, down, equal):
    x = [ctx.real('x0', s=(-1., 1.))]
    h = ctx.real('h', 0, s=(.1, 1.))
    for k in range(1, n):
        st = h if equal or k == 1 else ctx.real('h%d' % k, 0, s=(.1, 1.))
        x.append(x[-1] - st if down else x[-1] + st)
    return x


def arr(how, v):
    return list(v) if how == 'list' else np.array(v)


def vertex(x, y, x0=None):
    """(position, value) of the extremum of the parabola through three points"""
    x1, x2, x3 = x
    y1, y2, y3 = y
    d1, d2 = (y2 - y1) / (x2 - x1), (y3 - y2) / (x3 - x2)
    c = (d2 - d1) / (x3 - x1)
    # y = y1 + d1 (x-x1) + c (x-x1)(x-x2)
    xm = (x1 + x2) / 2 - d1 / (2 * c)
    return xm, y1 + d1 * (xm - x1) + c * (xm - x1) * (xm - x2)


def samples(ctx, n, down, how, equal=True):
    """arbitrary samples"""
    x = grid(ctx, n, down, equal)
    y = [ctx.real('y%d' % k, s=(-3., 3.)) for k in range(n)]
    r = maxfun(arr(how, x), arr(how, y))
    ctx.true('position and value', len(r) == 2)
    xm, ym = r
    for v in y:
        ctx.le('not below a sample', v, ym)
    lo, hi = (x[-1], x[0]) if down else (x[0], x[-1])
    ctx.le('within the samples', lo, xm)
    ctx.le('within the samples', xm, hi)
    # a sample at the ends, or the top of the curve through a maximum
    p = (ym - y[0]) * (ym - y[-1])
    q = (xm - x[0]) * (xm - x[-1])
    for k in range(1, n - 1):
        if bool((y[k] >= y[k - 1]) & (y[k] >= y[k + 1]) &
                ((y[k] > y[k - 1]) | (y[k] > y[k + 1]))):
            a, b = vertex(x[k - 1:k + 2], y[k - 1:k + 2])
            p, q = p * (ym - b), q * (xm - a)
    ctx.eq('an end or the top of the curve', p, 0)
    ctx.eq('its position', q, 0)


def parabola(ctx, n, down):
    """samples of a parabola: exact"""
    x = grid(ctx, n, down, True)
    xt, yt = ctx.real('xt', s=(-1., 2.)), ctx.real('yt', s=(-3., 3.))
    c = ctx.real('c', 0, s=(.5, 2.))
    y = [yt - c * (v - xt) ** 2 for v in x]
    xm, ym = maxfun(np.array(x), np.array(y))
    lo, hi = (x[-1], x[0]) if down else (x[0], x[-1])
    k = 0
    inside = bool(lo <= xt) and bool(xt <= hi)
    top = any(bool(y[i] >= y[i - 1]) and bool(y[i] >= y[i + 1]) for i in range(1, n - 1))
    if inside and top:
        ctx.eq('top', ym, yt)
        ctx.eq('where', xm, xt)
    elif not inside:
        k = 0 if bool(y[0] >= y[-1]) else -1
        ctx.eq('end', ym, y[k])
        ctx.eq('which end', xm, x[k])


def constant(ctx, n):
    x, y = grid(ctx, n, False, True), ctx.real('y', s=(-3., 3.))
    xm, ym = maxfun(np.array(x), np.array([y] * n))
    ctx.eq('value', ym, y)
    ctx.true('position', any(bool(xm == v) for v in x))


def scaling(ctx, n):
    """scaled values: the scaled maximum at the same place"""
    x = grid(ctx, n, False, True)
    y = [ctx.real('y%d' % k, s=(-3., 3.)) for k in range(n)]
    s = ctx.real('s', 0, s=(.2, 4.))
    a, b = maxfun(np.array(x), np.array(y)), maxfun(np.array(x), np.array([s * v for v in y]))
    ctx.eq('value', b[1], s * a[1])
    ctx.eq('position', b[0], a[0])


def cases(tier):
    out = []
    N = (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)
    for n in N:
        for d in (0, 1):
            out.append(('samples %d %d' % (n, d), 'samples',
                        dict(kw=dict(n=n, down=d, how='list' if d else 'array'))))
        if n > 2:
            out.append(('unequal %d' % n, 'samples',
                        dict(kw=dict(n=n, down=0, how='array', equal=False))))
            out.append(('parabola %d' % n, 'parabola', dict(kw=dict(n=n, down=0))))
            out.append(('parabola %d down' % n, 'parabola', dict(kw=dict(n=n, down=1))))
        out.append(('constant %d' % n, 'constant', dict(kw=dict(n=n))))
        if n < 4:
            out.append(('scaling %d' % n, 'scaling', dict(kw=dict(n=n))))
    return out
