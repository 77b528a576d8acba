"""ReadTSF: a touchstone text means what the touchstone format says"""
import warnings
import numpy as np
from pyRFtk import ReadTSF, rfObject
from pyRFtk.getlines import getlines
from engine.text import valtoken
from hxutil import *

META = dict(
    bounds='1 to 3 ports (5 for wrapped rows), up to 3 frequencies; all numbers in the '
           'data lines symbolic; every data type, format, unit and way of giving the '
           'reference impedance, the special and HFSS comments',
    assumptions=['a number in the text is read as the number it denotes'])

warnings.simplefilter('ignore')     # ReadTSF warns of R differing from the comments
UNITS = dict(Hz=1., kHz=1e3, MHz=1e6, GHz=1e9)


def element(ctx, name, fmt):
    """(text, value)"""
    if fmt == 'RI':
        x, y = ctx.real(name + 'x', s=(-.6, .6)), ctx.real(name + 'y', s=(-.6, .6))
        v = x + 1j * y
    else:
        y = ctx.real(name + 'p', s=(-90., 90.))
        if fmt == 'DB':
            x = ctx.real(name + 'd', s=(-20., -.5))
            m = 10 ** (x / 20)
        else:
            x = ctx.real(name + 'm', 0, s=(.1, .8))
            m = x
        v = m * np.exp(1j * np.pi / 180 * y)
    return '%s %s' % (valtoken(x), valtoken(y)), v


def table(ctx, N, F, fmt, wrap=None, tail=None):
    """lines, frequencies and matrices"""
    lines, fs, Ms = [], [], []
    f = 0
    for k in range(F):
        f = f + ctx.real('f%d' % k, 0, s=(1., 9.))
        fs.append(f)
        M = np.zeros((N, N), dtype=object)
        rows = []
        for i in range(N):
            row = []
            for j in range(N):
                a, b = (j, i) if N == 2 else (i, j)
                t, M[a, b] = element(ctx, 's%d_%d_%d' % (k, i, j), fmt)
                row.append(t)
            rows.append(row)
        Ms.append(M)
        ft = valtoken(f)
        if wrap == 'flat' or N <= 2 and not wrap:
            lines.append(ft + ' ' + ' '.join(' '.join(r) for r in rows))
        else:
            n = wrap or 4
            for i, r in enumerate(rows):
                for j in range(0, N, n):
                    lines.append((ft + '   ' if i == j == 0 else '      ')
                                 + '   '.join(r[j:j + n])
                                 + ('  ! row %d' % (i + 1) if j == 0 and N > 2 else ''))
        if tail:
            lines += tail(k)
    return lines, fs, np.array(Ms)


def same_network(ctx, label, S, Z, S0, Z0):
    """S on the impedance Z relates voltages and currents as S0 on Z0 (one or per port;
    pseudo-waves, sqrt(Re Z)/|Z| (V + ZI)/2)"""
    N = len(S0)
    Z0 = np.array([Z0] * N if np.ndim(Z0) == 0 else list(Z0))
    for j in range(N):
        a = np.zeros(N, dtype=complex)
        a[j] = 1.
        b = S0[:, j]
        s = np.array([np.abs(z) / np.sqrt(np.real(z)) for z in Z0])
        V = s * (a + b)
        I = s * (a - b) / Z0
        ctx.eq(label, S @ (V + Z * I), V - Z * I)


def read(ctx, N, F, unit, typ, fmt, R, Zb, wrap=None, funit=None, order=0, src='text'):
    lines, fs, Ms = table(ctx, N, F, fmt, wrap)
    opts = [unit, typ, fmt]
    if order:
        opts = opts[order:] + opts[:order]
    if R == 'one':
        Rv = ctx.real('R', 0, s=(10., 90.))
        opts += ['R', valtoken(Rv)]
    elif R == 'list':
        Rv = [ctx.real('R%d' % k, 0, s=(10., 90.)) for k in range(N)]
        opts += ['R'] + [valtoken(r) for r in Rv]
    elif R == 'first':
        Rv = ctx.real('R', 0, s=(10., 90.))
        opts = ['R', valtoken(Rv)] + opts
    else:
        Rv = 50.
        if R == 'bare':
            opts += ['R']
    opt = '# ' + ' '.join(o for o in opts if o)
    kw = {}
    Z = 50.
    if Zb:
        Z = kw['Zbase'] = ctx.real('Z', 0, s=(10., 90.))
    if funit:
        kw['funit'] = funit
    text = '\n'.join(['! a comment', opt, '! another comment'] + lines + [''])
    r = ReadTSF(text, **kw)
    scale = UNITS[unit.upper().replace('HZ', 'Hz').replace('K', 'k') if unit else 'GHz'] \
        / UNITS[funit or 'GHz']
    ctx.true('number of frequencies', np.shape(r['fs']) == (F,))
    ctx.true('shape', np.shape(r['Ss']) == (F, N, N))
    for k in range(F):
        ctx.eq('frequency', r['fs'][k], fs[k] * scale)
        M = Ms[k]
        if typ == 'Z':
            ctx.eq('impedances', r['Ss'][k] @ (M + Z * np.eye(N)), M - Z * np.eye(N))
        elif typ == 'Y':
            ctx.eq('admittances', r['Ss'][k] @ (np.eye(N) + Z * M), np.eye(N) - Z * M)
        else:
            same_network(ctx, 'network', r['Ss'][k], Z, M, Rv)
    ctx.true('format', r['datafmt'] == (fmt or 'MA'))
    ctx.true('unit', r['funit'] == (unit or 'GHz').upper())
    ctx.true('ports', list(r['ports']) == ['port-%03d' % k for k in range(1, N + 1)])
    if Zb:
        ctx.eq('Zbase', r['Zbase'], Z)


def default(ctx, N, opt, fmt, unit):
    """absent options have the default of the format: GHz S MA R 50"""
    lines, fs, Ms = table(ctx, N, 1, fmt)
    r = ReadTSF('\n'.join([opt] + lines))
    ctx.eq('frequency', r['fs'][0], fs[0] * UNITS[unit] / 1e9)
    r = ReadTSF('\n'.join([opt] + lines), funit='Hz')
    ctx.eq('frequency', r['fs'][0], fs[0] * UNITS[unit])
    same_network(ctx, 'network', r['Ss'][0], 50., Ms[0], 50.)
    Z = ctx.real('Z', 0, s=(10., 90.))
    r = ReadTSF('\n'.join([opt] + lines), Zbase=Z)
    same_network(ctx, 'network', r['Ss'][0], Z, Ms[0], 50.)


def hfss(ctx, N, F, R, square=0, Zb=1, lines_of=4, sep=' ', zreal=0):
    """port impedances in the comments"""
    g, z = [], []

    def tail(k):
        out = []
        for name, what, lst in (('Gamma', 'g', g), ('Port Impedance', 'z', z)):
            v, n = [], []
            for i in range(N):
                x = ctx.real('%sx%d_%d' % (what, k, i), 0, s=(5., 50.))
                y = ctx.real('%sy%d_%d' % (what, k, i), s=(-9., 9.)) if what == 'g' or \
                    not zreal else 0.
                v.append(x + 1j * y)
                n.append('%s %s' % (valtoken(x), valtoken(y)))
            lst.append(v)
            if square:
                n = [n[i] if i == j else '0 0' for i in range(N) for j in range(N)]
            out.append('!' + sep + name + ' ' + '  '.join(n[:lines_of]))
            for i in range(lines_of, len(n), lines_of):
                out.append('!      ' + '  '.join(n[i:i + lines_of]))
        return out
    lines, fs, Ms = table(ctx, N, F, 'RI', tail=tail)
    opt = '# MHz S RI'
    if R == 'one':
        opt += ' R 50.'
    elif R == 'list':
        opt += ' R ' + ' '.join(['30.'] * N)
    w = '31.5mm'
    head = ['! Touchstone file exported from HFSS 2021.1.0', '! Variables:',
            '!        strap_w = 200mm', '!   $x1 = ' + w, '!', '!Data is not renormalized']
    kw = {}
    Z = 50.
    if Zb:
        Z = kw['Zbase'] = ctx.real('Z', 0, s=(10., 90.))
    text = '\n'.join(head + [opt, '! Port[1] = 1'] + lines)
    r = ReadTSF(text, funit='Hz', **kw)
    for k in range(F):
        ctx.eq('frequency', r['fs'][k], fs[k] * 1e6)
        same_network(ctx, 'network', r['Ss'][k], Z, Ms[k], z[k])
        ctx.eq('Zc', np.array(r['Zc'][k]), np.array(z[k]))
        ctx.eq('Gm', np.array(r['Gm'][k]), np.array(g[k]))
    ctx.true('variables', r['variables'] == {'strap_w': '200mm', '$x1': w})


def comments(ctx, N):
    lines, fs, Ms = table(ctx, N, 1, 'RI')
    m1 = ctx.real('m1', 0, s=(1., 9.))
    m2 = ctx.real('m2', 0, s=(1., 9.))
    names = ['in', 'out 2', 'x'][:N]
    base = dict(part=None, shape=None, numbering=None, markers=None)

    def chk(special, kw={}, **want):
        pos = want.pop('pos', 0)
        special = special.split('\n')
        text = (special if pos == 0 else []) + ['# MHz S RI R 50'] + \
            (special if pos == 1 else []) + lines + ['']
        r = ReadTSF('\n'.join(text), **kw)
        ctx.eq('data', r['Ss'][0], Ms[0])
        wp = want.pop('ports', ['port-%03d' % k for k in range(1, N + 1)])
        ctx.true('ports', list(r['ports']) == wp)
        for k, v in dict(base, **want).items():
            if k == 'markers' and v is not None:
                ctx.eq(k, r[k], np.array(v))
            else:
                ctx.true(k, r[k] == v)
    p = '!PORTS ' + ', '.join(names)
    for pos in (0, 1):
        chk(p, ports=names, pos=pos)
    chk('!PORTS ' + ','.join(names[1:]))
    chk(p, dict(ports=['a', 'b', 'c'][:N]), ports=['a', 'b', 'c'][:N])
    chk('! x', dict(ports=['a', 'b', 'c'][:N]), ports=['a', 'b', 'c'][:N])
    chk('! x', dict(ports='p%d'), ports=['p%d' % k for k in range(1, N + 1)])
    chk(p, dict(ports='p%d'), ports=['p%d' % k for k in range(1, N + 1)])
    chk(p, dict(ports=['a', 'b', 'c', 'd'][:N + 1]), ports=names) # too many
    chk('!MARKERS %s %s' % (valtoken(m1), valtoken(m2)), markers=[m1, m2])
    chk('!MARKERS %s' % valtoken(m1), markers=[m1])
    chk('!SHAPE 2 3', shape=(2, 3))
    chk('!SHAPE 2', shape=(2, 0))
    chk('!PART TOP LEFT', part=('top', 'left'))
    chk('!PART BOTTOM', part='bottom')
    chk('!NUMBERING UP', numbering='up')
    chk('!SHAPE 2 3\n!NUMBERING DOWN', shape=(2, 3), numbering='down')
    chk('\n'.join(['!REM made by hand', p, '!PART TOP', '!SHAPE 1 2',
                   '!MARKERS ' + valtoken(m2)]),
        ports=names, part='top', shape=(1, 2), markers=[m2])


def refused(ctx, N):
    lines, fs, Ms = table(ctx, N, 1, 'RI')
    ctx.raises('two option lines', ValueError, ReadTSF,
               '\n'.join(['# MHz S RI R 50', '# MHz S MA R 50'] + lines))
    ctx.raises('unknown option', ValueError, ReadTSF,
               '\n'.join(['# MHz S XY R 50'] + lines))
    ctx.raises('unknown type', ValueError, ReadTSF,
               '\n'.join(['# MHz H RI R 50'] + lines))
    ctx.raises('not a number', ValueError, ReadTSF,
               '\n'.join(['# MHz S RI R 50'] + lines + ['12 abc']))


def table_object(ctx, N, unit, fmt, Zb, funit, ports):
    """rfObject(touchstone=)"""
    lines, fs, Ms = table(ctx, N, 2, fmt)
    Rv = ctx.real('R', 0, s=(10., 90.))
    text = '\n'.join(['# %s S %s R %s' % (unit, fmt, valtoken(Rv))] + lines)
    kw = {}
    Z = 50.
    if Zb:
        Z = kw['Zbase'] = ctx.real('Z', 0, s=(10., 90.))
    if funit:
        kw['funit'] = funit
    if ports:
        kw['ports'] = ['a', 'b', 'c'][:N]
    o = rfObject(touchstone=text, **kw)
    u = UNITS[unit] / UNITS[funit or 'Hz']
    ctx.true('ports', list(o.ports) == (kw.get('ports') or
                                        ['port-%03d' % k for k in range(1, N + 1)]))
    ctx.true('ports', len(o) == N and len(o.xpos) == N)
    ctx.eq('Zbase', o.Zbase, Z)
    Z2 = ctx.real('Z2', 0, s=(10., 90.))
    for k in (0, 1):
        ctx.eq('frequencies', o.fs[k], fs[k] * u)
        same_network(ctx, 'entry', o.Ss[k], Z, Ms[k], Rv)
    same_network(ctx, 'getS', o.getS(o.fs[1]), Z, Ms[1], Rv)
    same_network(ctx, 'getS Zbase', o.getS(o.fs[0], Zbase=Z2), Z2, Ms[0], Rv)
    r1 = ReadTSF(text, Zbase=Z, funit=funit or 'Hz')
    r2 = ReadTSF(text, Zbase=Z, funit=funit or 'Hz')
    ctx.eq('reading again', r1['Ss'], r2['Ss'])


class Src:
    def __init__(self, lines):
        self.lines = lines

    def readlines(self):
        return [ln + '\n' for ln in self.lines]


def sources(ctx):
    """an open file gives what its text gives"""
    lines, fs, Ms = table(ctx, 2, 2, 'RI')
    L = ['# MHz S RI R 50'] + lines
    a = ReadTSF('\n'.join(L))
    b = ReadTSF(Src(L))
    c = ReadTSF('\r\n'.join(L) + '\r\n')
    d = ReadTSF('\n\n' + '\n\n'.join('  ' + x + '  ' for x in L) + '\n\n')
    e = ReadTSF('\n'.join(x.replace(' ', '\t') for x in L))
    for r in (b, c, d, e):
        ctx.eq('fs', r['fs'], a['fs'])
        ctx.eq('Ss', r['Ss'], a['Ss'])


def cases(tier):
    out = []

    def add(fn, **kw):
        out.append(('%s %s' % (fn, ' '.join(str(v) for v in kw.values())), fn, dict(kw=kw)))
    for fmt in ('RI', 'MA', 'DB'):
        for N in (1, 2, 3):
            add('read', N=N, F=2 if N < 3 else 1, unit='MHz', typ='S', fmt=fmt, R='one', Zb=1)
        for typ in 'ZY':
            add('read', N=1, F=2, unit='MHz', typ=typ, fmt=fmt, R='', Zb=1)
            add('read', N=2, F=1, unit='GHz', typ=typ, fmt=fmt, R='', Zb=0)
    for typ in 'ZY':
        add('read', N=2, F=1, unit='GHz', typ=typ, fmt='RI', R='', Zb=1)
    for unit in ('Hz', 'kHz', 'MHz', 'GHz', 'MHZ', 'ghz'):
        for funit in (None, 'Hz', 'MHz'):
            add('read', N=1, F=3, unit=unit, typ='S', fmt='RI', R='one', Zb=0, funit=funit)
    for R in ('list', 'first', 'bare', ''):
        for Zb in (0, 1)[:2 - (R == 'bare')]:
            add('read', N=2, F=1, unit='MHz', typ='S', fmt='RI', R=R, Zb=Zb)
    add('read', N=3, F=1, unit='MHz', typ='S', fmt='MA', R='list', Zb=1)
    for order in (1, 2):
        add('read', N=2, F=1, unit='kHz', typ='S', fmt='RI', R='one', Zb=1, order=order)
    for wrap in ('flat', 1, 2, 3):
        add('read', N=3, F=2, unit='MHz', typ='S', fmt='RI', R='', Zb=0, wrap=wrap)
    for N in (4, 5):
        add('read', N=N, F=2, unit='MHz', typ='S', fmt='RI', R='', Zb=0, wrap=None)
    if tier == 'thorough':
        for N in (6, 7, 9):
            add('read', N=N, F=2, unit='MHz', typ='S', fmt='RI', R='', Zb=0, wrap=None)
        for fmt in ('RI', 'MA', 'DB'):
            for typ in 'SZY':
                for R in ('one', ''):
                    for unit in ('Hz', 'kHz', 'MHz', 'GHz'):
                        add('read', N=2, F=2, unit=unit, typ=typ, fmt=fmt, R=R, Zb=1,
                            funit='Hz')
    for opt, fmt, unit in (('#', 'MA', 'GHz'), ('# MHz', 'MA', 'MHz'), ('# S', 'MA', 'GHz'),
                           ('# RI', 'RI', 'GHz'), ('#hz ri', 'RI', 'Hz'),
                           ('# DB kHz', 'DB', 'kHz'), ('# GHz S R 50', 'MA', 'GHz')):
        out.append(('default ' + opt, 'default',
                    dict(kw=dict(N=2, opt=opt, fmt=fmt, unit=unit))))
    for N, F in ((1, 2), (2, 2), (3, 1)):
        for R in ('', 'one', 'list'):
            if (N, R) != (3, 'list'):
                add('hfss', N=N, F=F, R=R, zreal=int(N > 1))
    for square in (1,):
        add('hfss', N=2, F=2, R='', square=square, zreal=1)
        add('hfss', N=2, F=1, R='one', square=square, zreal=1)
        add('hfss', N=2, F=1, R='list', square=square, zreal=1)
    add('hfss', N=3, F=1, R='one', square=1, Zb=0, lines_of=2, sep='', zreal=1)
    add('hfss', N=2, F=2, R='one', square=0, Zb=0, lines_of=1, sep='', zreal=1)
    for N in (1, 2, 3):
        add('comments', N=N)
        add('refused', N=N)
    for N, unit, fmt, Zb, funit, ports in (
            (1, 'MHz', 'RI', 0, None, 0), (2, 'MHz', 'RI', 1, None, 1),
            (2, 'GHz', 'MA', 1, 'MHz', 0), (3, 'Hz', 'DB', 0, 'GHz', 1)):
        add('table_object', N=N, unit=unit, fmt=fmt, Zb=Zb, funit=funit, ports=ports)
    add('sources')
    return out
