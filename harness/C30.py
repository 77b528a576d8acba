"""printed matrices show the numbers of the matrix"""
import builtins
import contextlib
import io
import re
import numpy as np
from pyRFtk import strM, printM, printMA, printRI, printMatrices, rfBase
from engine import text, loader

META = dict(
    bounds='matrices up to 4x4 (rectangular ones, lists and real ones included) of symbolic '
           'numbers, any of them possibly zero or below the printing threshold, with every '
           'function, format and zero mark',
    assumptions=['numbers with 3 or more printed decimals are compared exactly, except in the '
                 'cases on digits'])

NUM = r'(\ue000\d+\ue001|[-+]?(?:\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|inf|nan))'
DEG = '\N{DEGREE SIGN}'
# function, format, regular expression of an entry, decimals
RI = ('RI', r'%s\s*%sj, ' % (NUM, NUM), (3, 3))
MA = ('MA', r'%s\s*%s%s, ' % (NUM, NUM, DEG), (5, 2))
DB = ('DB', r'%s\s*%s%s, ' % (NUM, NUM, DEG), (3, 1))
RE = ('R', r'%s, ' % NUM, (3,))
FUN = dict(strM=RI, printM=RI, printRI=RI, printMA=MA, printDB=DB, printR=RE)


def number(t):
    if t.startswith('\ue000'):
        return text.parse(t)
    return float(t)


def shown(fun, *a, **k):
    """what the function prints"""
    buf = io.StringIO()
    loader.PRINT[0] = builtins.print
    try:
        with contextlib.redirect_stdout(buf):
            r = fun(*a, **k)
    finally:
        loader.PRINT[0] = None
    return buf.getvalue() if r is None else r + '\n'


def mat(ctx, R, C, real):
    m = []
    for i in range(R):
        m.append([])
        for j in range(C):
            n = 'm%d%d' % (i, j)
            m[-1].append(ctx.real(n, s=(-9., 9.)) if real else
                         ctx.cplx(n, s=(-9., 9.)))
    return m


def entries(ctx, s, R, C, fmt, zero):
    """the shape and the entries of the text: numbers or None for a zero mark"""
    head, _, rest = s.partition('\n')
    ctx.true('shape', head == '[%d,%d]' % (R, C))
    lines = rest.split('\n')
    ctx.true('layout', lines[0] == '' and len(lines) == R + 4 and
             all(l == '' for l in lines[R + 1:]))
    out = []
    for l in lines[1:R + 1]:
        row, rx = [], re.compile(r'\s*(?:' + fmt + (
            r'|(?P<z>%s)(?=\s|$)' % re.escape(zero) if zero else '') + ')')
        while l.strip():
            m = rx.match(l)
            ctx.true('entry', m is not None)
            row.append(None if zero and m.group('z') else
                       [number(g) for g in m.groups() if g is not None])
            l = l[m.end():]
        ctx.true('columns', len(row) == C)
        out.append(row)
    return out


def meant(kind, g):
    if kind == 'R':
        return g[0]
    if kind == 'RI':
        return g[0] + 1j * g[1]
    a = g[0] if kind == 'MA' else 10 ** (g[0] / 20)
    return a * np.exp(1j * np.pi / 180 * g[1])


def value(ctx, fun, R, C, form='array', zero='0', small=None, where=(0, 0)):
    """every entry is at its place; those below 1e-7 show as the zero mark"""
    text.EXACT[0] = 1
    kind, fmt, nd = FUN[fun]
    m = mat(ctx, R, C, kind == 'R')
    for i in range(R):
        for j in range(C):
            if small and (i, j) == where:
                if small == 'zero':
                    m[i][j] = 0. * m[i][j]
                else:
                    q = ctx.real('q', 0, 1, s=(.1, .9))
                    m[i][j] = q * (.99e-7 if small == 'below' else 1.)
                    if small == 'above':
                        ctx.assume(q >= 1.01e-7)
            else:
                ctx.assume(np.abs(m[i][j]) >= 1)
    a = np.array(m) if form == 'array' else m
    f = getattr(printMatrices, fun)
    k = {} if zero == '0' else dict(printzeros=zero)
    got = entries(ctx, shown(f, a, **k), R, C, fmt, zero)
    for i in range(R):
        for j in range(C):
            tiny = bool(small in ('zero', 'below') and (i, j) == where and zero)
            ctx.true('zero mark', (got[i][j] is None) == tiny)
            if got[i][j] is not None and not (small and (i, j) == where):
                ctx.eq('entry', meant(kind, got[i][j]), m[i][j], tol=4e-3)
            if form == 'array':
                ctx.eq('matrix left as it was', a[i, j], m[i][j])


def digits(ctx, fun):
    """the printed digits"""
    kind, fmt, nd = FUN[fun]
    m = mat(ctx, 1, 2, kind == 'R')
    for x in m[0]:
        ctx.assume(np.abs(x) >= 1)
    (row,) = entries(ctx, shown(getattr(printMatrices, fun), np.array(m)), 1, 2, fmt, '0')
    for g, x in zip(row, m[0]):
        want = dict(R=lambda: [x], RI=lambda: [np.real(x), np.imag(x)],
                    MA=lambda: [np.abs(x), np.angle(x) * 180 / np.pi],
                    DB=lambda: [20 * np.log10(np.abs(x)), np.angle(x) * 180 / np.pi])[kind]()
        ctx.true('numbers', len(g) == len(want))
        for u, v, n in zip(g, want, nd):
            h = .51 * 10 ** -n
            ctx.le('digits', u - v, h)
            ctx.le('digits', v - u, h)


def chosen(ctx, fun, what):
    """formats and functions of the caller"""
    text.EXACT[0] = 1
    m = mat(ctx, 2, 2, False)
    for r in m:
        for x in r:
            ctx.assume(np.abs(x) >= 1)
    f = getattr(printMatrices, fun)
    if what == 'format':
        s = shown(f, m, pfmt='<%.4f;%.4f> ')
        fmt, kind = r'<%s;%s> ' % (NUM, NUM), FUN[fun][0]
    elif what == 'function':
        s = shown(f, m, pfmt='%.4f|%.4f ', pfun=lambda z: (2 * np.imag(z), 3 * np.real(z)))
        fmt, kind = r'%s\|%s ' % (NUM, NUM), 'own'
    got = entries(ctx, s, 2, 2, fmt, '0')
    for i in range(2):
        for j in range(2):
            g = got[i][j]
            ctx.eq('entry', g[1] / 3 + .5j * g[0] if kind == 'own' else meant(kind, g), m[i][j],
                   tol=4e-3)


def cases(tier):
    out = []
    for fun in FUN:
        for R, C in [(1, 1), (2, 2), (2, 3)] + ([(3, 1), (4, 4)] if tier == 'thorough' else []):
            for form in 'array', 'list':
                if fun == 'printR' and form == 'list' and (R, C) != (2, 2):
                    continue
                out.append(('%s %dx%d %s' % (fun, R, C, form), 'value',
                            dict(kw=dict(fun=fun, R=R, C=C, form=form))))
        for small in 'zero', 'below', 'above':
            for z in '0', '-', '':
                for w in [(0, 1), (1, 0)]:
                    out.append(('%s %s %r %r' % (fun, small, z, w), 'value',
                                dict(kw=dict(fun=fun, R=2, C=2, small=small, zero=z, where=w))))
        out.append(('digits ' + fun, 'digits', dict(kw=dict(fun=fun))))
        if fun != 'printR':
            out.append(('format ' + fun, 'chosen', dict(kw=dict(fun=fun, what='format'))))
        if fun in ('strM', 'printM'):
            out.append(('function ' + fun, 'chosen', dict(kw=dict(fun=fun, what='function'))))
    return out
