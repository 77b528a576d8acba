"""touchstone texts written by tsf2str and WriteTSF are read back as the same network"""
import numpy as np
from pyRFtk import ReadTSF, WriteTSF, rfObject, rfTRL, rfRLC, rfCircuit, rfCoupler
from pyRFtk.rfBase import rfBase
from engine import text as T
from hxutil import *

META = dict(
    bounds='1 to 3 ports (5 and 7 for wrapped rows), up to 3 frequencies; S-matrices, '
           'frequencies and impedances symbolic; both writers, all types, formats, units '
           'and ways of giving (or not) the reference impedance',
    assumptions=['numbers written with 4 or more decimals are read as written (the case '
                 '"digits" bounds the error of the digits themselves)'])

UNITS = dict(Hz=1., kHz=1e3, MHz=1e6, GHz=1e9)


def mat(ctx, name, N, fmt):
    if fmt == 'RI':
        return ctx.cmat(name, N)
    M = np.zeros((N, N), dtype=object)
    for i in range(N):
        for j in range(N):
            M[i, j] = ctx.real('%s%d%dm' % (name, i, j), 0, s=(.1, .5)) * \
                np.exp(1j * ctx.real('%s%d%dp' % (name, i, j), -3, 3, s=(-2., 2.)))
    return M


def write(ctx, o, writer, opt, fs, **kw):
    if writer == 'tsf2str':
        if opt is not None:
            kw['tfmt'] = '# ' + opt
        return o.tsf2str(fs=fs, **kw)
    if writer == 'tsf2str#':
        return o.tsf2str(fs=fs, tfmt=opt, **kw)
    if opt is None:
        return WriteTSF(o, fs=fs, **kw)
    return WriteTSF(o, fs=fs, tsf_format=opt, **kw)


def freqs(ctx, F, unit):
    """frequencies with the digits of the default formats"""
    return [(31.2 + 2.5 * k) * UNITS['MHz'] for k in range(F)]


def back(ctx, label, txt, o, S, Z, fs, N, ports, f=True, same=0):
    """S on Z: the network at the frequencies fs"""
    Zr = Z if same else ctx.real('Zr ' + label, 0, s=(10., 90.))
    r = ReadTSF(txt, Zbase=Zr, funit='Hz')
    ctx.true(label + ': sizes', np.shape(r['Ss']) == (len(fs), N, N)
             and np.shape(r['fs']) == (len(fs),))
    ctx.true(label + ': ports', list(r['ports']) == list(ports))
    I = np.eye(N)
    for k in range(len(fs)):
        if f:
            ctx.true(label + ': frequency', np.abs(r['fs'][k] - fs[k]) <= 1e-5)
        # (V + Zr I) = a, (V - Zr I) = S a and the same V, I on Z
        if same:
            ctx.eq(label, r['Ss'][k], S[k], tol=1e-4)
            continue
        V, J = I + r['Ss'][k], (I - r['Ss'][k]) / Zr
        ctx.eq(label, S[k] @ (V + Z * J), V - Z * J, tol=1e-4)
    r = ReadTSF(txt, Zbase=Zr, funit='Hz', ports=['q%d' % k for k in range(N)])
    ctx.true(label + ': ports given', list(r['ports']) == ['q%d' % k for k in range(N)])


def table(ctx, N, F, writer, opt, fmt='MA', unit='MHz', fset=1, R='42.5', same=0):
    T.EXACT[0] = 4
    Z = 50. if same else ctx.real('Z', 0, s=(10., 90.))
    fs = freqs(ctx, F, unit)
    S = np.array([mat(ctx, 's%d' % k, N, fmt) for k in range(F)])
    ports = ['in', 'out', 'p3', 'p4', 'p5', 'p6', 'p7'][:N]
    o = rfBase(Ss=S, fs=fs, Zbase=Z, ports=ports)
    if opt and 'R' in opt.upper().split():
        # WriteTSF finds the number in the text by its digits
        opt = opt + ' ' + (R if writer == 'WriteTSF' else
                           T.valtoken(ctx.real('R', 0, s=(10., 90.))))
    txt = write(ctx, o, writer, opt, fs if fset else None if 'tsf' in writer else [])
    ctx.eq('the table is left as it was', o.Ss, S)
    back(ctx, 'table', txt, o, S, Z, fs, N, ports, same=same)
    txt2 = write(ctx, o, writer, opt, fs, comments='made\nby hand')
    back(ctx, 'with comments', txt2, o, S, Z, fs, N, ports, same=same)


def wide(ctx, N, writer):
    T.EXACT[0] = 4
    fs = freqs(ctx, 2, 'MHz')
    S = np.array([ctx.cmat('s%d' % k, N) for k in range(2)])
    ports = ['in', 'out', 'p3', 'p4', 'p5', 'p6', 'p7', 'p8', 'p9'][:N]
    o = rfBase(Ss=S, fs=fs, Zbase=50., ports=ports)
    txt = write(ctx, o, writer, 'MHZ S RI R 50', fs)
    r = ReadTSF(txt, Zbase=50., funit='Hz')
    ctx.true('ports', list(r['ports']) == ports)
    ctx.eq('table', r['Ss'], S, tol=1e-4)


def device(ctx, what, writer, opt, same=0):
    """networks computed at the frequencies asked for"""
    T.EXACT[0] = 4
    Z = 30. if same else ctx.real('Z', 0, s=(10., 90.))
    fs = freqs(ctx, 1 if what == 'line' else 2, 'MHz')
    if what == 'line':
        o = rfTRL(L=.4, Z0TL=ctx.real('Zl', 0, s=(10., 90.)),
                  Zbase=Z, ports=['a', 'b'])
    elif what == 'lumped':
        o = rfRLC(Rs=ctx.real('Rs', 0, s=(1., 9.)), Cp=ctx.real('Cp', 0, s=(1e-11, 1e-10)),
                  Zbase=Z, ports=['a', 'b'])
    elif what == 'coupler':
        o = rfCoupler(kc=.5, Zbase=Z)
    else:
        o = rfCircuit(Zbase=Z)
        S = ctx.cmat('s', 3)
        o.addblock('X', S, ports=['a', 'b', 'c'], **({} if what == 'circuit' else {}))
        o.connect('X.a', 'one')
        o.connect('X.b', 'two')
        o.terminate('X.c', Y=0.)
    S = np.array([o.getS(f) for f in fs])
    ports = list(o.ports)
    txt = write(ctx, o, writer, opt, fs)
    back(ctx, what, txt, o, S, Z, fs, len(ports), ports, same=same)
    ctx.eq('device as before', o.getS(fs[0]), S[0])


def asked(ctx, kind, opt):
    """tsf2str on another reference impedance"""
    T.EXACT[0] = 4
    Z, Zb = ctx.real('Z', 0, s=(10., 90.)), ctx.real('Zb', 0, s=(10., 90.))
    fs = freqs(ctx, 2, 'MHz')
    fmt = 'RI' if opt and 'RI' in opt else 'MA'
    S = np.array([mat(ctx, 's%d' % k, 1, fmt) for k in range(2)])
    if kind == 'base':
        o = rfBase(Ss=S, fs=fs, Zbase=Z, ports=['a'])
    else:
        o = rfCircuit(Zbase=Z)
        o.addblock('X', rfBase(Ss=S, fs=fs, Zbase=Z, ports=['x']))
        o.connect('X.x', 'a')
    if opt and opt.endswith('R'):
        opt += ' ' + T.valtoken(ctx.real('R', 0, s=(10., 90.)))
    kw = {} if opt is None else dict(tfmt='# ' + opt)
    txt = o.tsf2str(fs=fs, Zbase=Zb, **kw)
    back(ctx, 'asked', txt, o, S, Z, fs, 1, ['a'])
    if opt is None:
        R = [ln for ln in txt.split('\n') if ln[:1] == '#'][0].split()[-1]
        ctx.eq('reference impedance of the text', float(R), Zb)
    if kind == 'base':
        back(ctx, 'all', o.tsf2str(Zbase=Zb, **kw), o, S, Z, fs, 1, ['a'])


def default_fs(ctx, which):
    """without frequencies: those of the table"""
    T.EXACT[0] = 4
    fs = freqs(ctx, 2, 'MHz')
    S = np.array([ctx.cmat('s%d' % k, 2) for k in range(2)])
    if which == 'rfObject':
        o = rfObject(ports=['a', 'b'])
        for f, s in zip(fs, S):
            o.setS(f, s)
    else:
        o = rfBase(Ss=S, fs=fs, ports=['a', 'b'])
    txt = WriteTSF(o, tsf_format='MHZ S RI R 50')
    back(ctx, 'default', txt, o, S, 50., fs, 2, ['a', 'b'])


def frequency(ctx, unit, F):
    """tsf2str writes the frequencies with the digits they need"""
    o = rfBase(Ss=[[[.1]]] * F, fs=range(1, F + 1))
    f = 0
    fs = []
    for k in range(F):
        # with and without digits behind the point
        f = f + ctx.real('f%d' % k, 0, s=(1e6, 9e6)) + ctx.real('g%d' % k, 0, 1, s=(0., 1.))
        fs.append(f)
    o.fs = np.array(fs)
    r = ReadTSF(o.tsf2str(tfmt='# %s S RI R 50' % unit), funit=unit)
    for k in range(F):
        ctx.true('frequency', np.abs(r['fs'][k] - fs[k] / UNITS[unit]) <= 1e-14)


def digits(ctx, writer, fmt):
    """error made by writing the digits"""
    fs = freqs(ctx, 1, 'MHz')
    x, y = ctx.real('x', -1, 1, s=(-.7, .7)), ctx.real('y', -1, 1, s=(-.7, .7))
    o = rfBase(Ss=[[[x + 1j * y]]], fs=fs)
    txt = write(ctx, o, writer, 'MHZ S %s R 50' % fmt, fs)
    r = ReadTSF(txt, Zbase=50.)
    s = r['Ss'][0, 0, 0]
    ctx.true('real part', np.abs(s.real - x) <= 1e-6)
    ctx.true('imaginary part', np.abs(s.imag - y) <= 1e-6)


def files(ctx, writer):
    """writing to a file writes the same text"""
    import tempfile
    import os
    T.EXACT[0] = 4
    fs = freqs(ctx, 2, 'MHz')
    S = np.array([[[.1, .2j], [.3, -.4]], [[.2, .1j], [.5, -.1]]])
    o = rfBase(Ss=S, fs=fs, ports=['a', 'b'])
    with tempfile.TemporaryDirectory() as d:
        if writer == 'write_tsf':
            p = os.path.join(d, 'x')
            o.write_tsf(p)
            p += '.s2p'
        else:
            p = os.path.join(d, 'x.s2p')
            WriteTSF(o, p, tsf_format='MHZ S RI R 50')
        r = ReadTSF(p, Zbase=50., funit='Hz')
        q = rfObject(touchstone=p)
    ctx.true('S', bool(np.max(np.abs(np.array(r['Ss'] - S, dtype=complex))) < 1e-6))
    ctx.true('ports', list(r['ports']) == ['a', 'b'] and list(q.ports) == ['a', 'b'])


def cases(tier):
    out = []

    def add(fn, **kw):
        out.append(('%s %s' % (fn, ' '.join(str(v) for v in kw.values())), fn, dict(kw=kw)))
    for w in ('tsf2str', 'WriteTSF'):
        for fmt in ('RI', 'MA', 'DB'):
            for N in (1, 2):
                same = N > 1 and fmt != 'RI'
                add('table', N=N, F=2 if N == 1 else 1, writer=w,
                    opt='MHZ S %s' % fmt + ('' if same else ' R'), fmt=fmt, same=int(same))
            for typ in 'ZY':
                add('table', N=1, F=1, writer=w, opt='MHZ %s %s R' % (typ, fmt), fmt=fmt)
        for typ in 'ZY':
            add('table', N=2, F=1, writer=w, opt='MHz %s RI' % typ, fmt='RI')
            add('table', N=1, F=2, writer=w, opt='GHZ %s RI' % typ, fmt='RI')
        add('table', N=3, F=1, writer=w, opt='MHZ S RI R', fmt='RI')
        add('table', N=2, F=2, writer=w, opt='MHZ S RI R', fmt='RI', fset=0)
        add('table', N=1, F=1, writer=w, opt='MHZ S RI R', fmt='RI', R='3.5e1')
        add('table', N=1, F=1, writer=w, opt='MHZ S RI R', fmt='RI', R='20')
        for opt in ('kHz S RI', 'HZ RI r', 'RI GHz', 'MHz S', 'ri mhz r'):
            add('table', N=1, F=2, writer=w, opt=opt, fmt='RI' if 'RI' in opt.upper() else 'MA')
        add('table', N=2, F=1, writer=w, opt=None, fmt='MA', same=1)
        for N in (4, 5, 7) if tier != 'thorough' else (3, 4, 5, 6, 7, 8, 9):
            add('wide', N=N, writer=w)
        for what in ('circuit', 'coupler') if 'tsf' in w else \
                ('line', 'lumped', 'circuit', 'coupler'):
            add('device', what=what, writer=w, opt='MHZ S RI R 30', same=int(what == 'line'))
        add('digits', writer=w, fmt='RI')
    add('table', N=1, F=1, writer='tsf2str#', opt='#MHZ S RI R', fmt='RI')
    add('table', N=1, F=1, writer='tsf2str#', opt='MHZ S RI R', fmt='RI')
    for kind in ('base', 'circuit'):
        for opt in (None, 'MHZ S RI', 'GHZ S RI R', 'MHZ Z RI', 'kHz Y RI R'):
            add('asked', kind=kind, opt=opt)
    for which in ('rfObject', 'rfBase'):
        add('default_fs', which=which)
    for unit in ('MHz', 'GHz', 'Hz'):
        for F in (1, 2) if tier != 'thorough' else (1, 2, 3):
            add('frequency', unit=unit, F=F)
    for w in ('write_tsf', 'WriteTSF'):
        add('files', writer=w)
    if tier == 'thorough':
        for w in ('tsf2str', 'WriteTSF'):
            for typ in 'SZY':
                for fmt in ('RI', 'MA', 'DB'):
                    for unit in ('Hz', 'kHz', 'GHz'):
                        add('table', N=2 if fmt == 'RI' or typ == 'S' else 1,
                            F=2 if fmt == 'RI' else 1, writer=w,
                            opt='%s %s %s' % (unit, typ, fmt) + (' R' if fmt == 'RI' else
                                                                 ''),
                            fmt=fmt, same=int(fmt != 'RI'))
    return out
