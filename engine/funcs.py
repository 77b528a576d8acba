"""Transcendental and algebraic functions of symbolic numbers."""
import cmath
import math
from fractions import Fraction
from . import poly as P
from . import sym as S
from .poly import pconst, pvar, pmul, pscale, W, FM
from .sym import Sym, lift, Unsupported, T, IU, ONE, HALF


def _numpoly(p, env):
    t = 0j
    for k, c in p.items():
        x = complex(c)
        i = 0
        while k:
            e = k & FM
            if e:
                x *= env[i] ** e
            k >>= W
            i += 1
        t += x
    return t


def numeval(s, env):
    """numeric value (complex) of a Sym under env (list indexed by variable)"""
    if not isinstance(s, Sym):
        return complex(s)
    v = _numpoly(s.n, env) / s.q
    for f, e in s.d:
        v /= _numpoly(P.VT.fac[f], env) ** e
    return v


def _symvar(v, k='f', e=1):
    return Sym(pvar(v.idx, e), 1, (), k)


# ------------------------------------------------------------------------- pi
def pi():
    t = T()
    v = t.byname.get('pi')
    if v is None:
        v = t.new('pi', 'real')
        v.pos = '+'
        v.lo = Fraction(3141592653589, 10 ** 12)
        v.hi = Fraction(3141592653590, 10 ** 12)
        v.ev = lambda env: complex(math.pi)
        v.info = 'const'
    return _symvar(v)


# ----------------------------------------------------------------------- sqrt
def _sqrt_int(n):
    """n = a*a*b with b squarefree (trial division, bounded)"""
    a, b = 1, 1
    p = 2
    while p * p <= n and p < 2000:
        while n % (p * p) == 0:
            a *= p
            n //= p * p
        if n % p == 0:
            b *= p
            n //= p
        p += 1 if p == 2 else 2
    r = math.isqrt(n)
    if r * r == n:
        a *= r
    else:
        b *= n
    return a, b


def _sqrt_key(rest, cplx=False):
    """variable for sqrt(rest), rest a real nonnegative polynomial"""
    t = T()
    key = ('sqrt', frozenset(rest.items()))
    v = t.key.get(key)
    if v is None:
        v = t.new('sqrt(%s)' % S.showpoly(rest, 4), 'sqrt')
        s = Sym(rest, 1, (), 'f')
        sg = S._psgn(rest)
        v.pos = '+' if sg == '+' else '0+'
        v.info = s
        v.ev = lambda env: complex(math.sqrt(max(numeval(s, env).real, 0.)))
        t.rule_sq(v, rest)
        t.key[key] = v
        t.key.setdefault('sqrtlist', []).append((v, rest))
    return v


def sqrt_nonneg(x):
    """principal root of a real Sym known to be >= 0 on this path"""
    if x.iszero():
        return x
    k = 'f' if x.k == 'i' else x.k
    x = _detrig(x)
    n, den = x.n, Sym(pconst(x.q), 1, (), 'f')
    n = pscale(n, x.q)
    for f, e in x.d:
        p = P.VT.fac[f]
        h = (e + 1) // 2
        if e % 2:
            n = pmul(n, p)
        fs = Sym(p, 1, (), 'f')
        a = fs if h % 2 == 0 else absolute(fs.real)
        den = den * a ** h
    r = _sqrt_poly(n) / den
    return r.withkind(k)


def _trig(v):
    """real variables c, s with E = c + i s for a unit exponential E"""
    t = T()
    ent = t.key.get(('trig', v.idx))
    if ent is None:
        c = t.new('c' + v.name, 'cosE')
        s = t.new('s' + v.name, 'sinE')
        c.info = s.info = v
        c.lo = s.lo = Fraction(-1)
        c.hi = s.hi = Fraction(1)
        c.ev = lambda env, i=v.idx: complex(env[i].real)
        s.ev = lambda env, i=v.idx: complex(env[i].imag)
        t.rule_sq(s, {0: 1, P.mono(c.idx, 2): -1})
        ent = t.key[('trig', v.idx)] = (c, s)
    return ent


def _uexps(n):
    vs = T().vars
    return [i for i in P.pvars(n) if vs[i].conj == 'inv']


def _trigpoly(n):
    """n with the unit exponentials written as c + i s"""
    us = _uexps(n)
    if not us:
        return Sym(n, 1, (), 'c')
    out = Sym({}, 1, (), 'c')
    pw = {}
    groups = {}
    for k, c in n.items():
        e = tuple((k >> (W * i)) & FM for i in us)
        kk = k
        for i, x in zip(us, e):
            kk -= x << (W * i)
        groups.setdefault(e, {})[kk] = c
    for e, p in groups.items():
        term = Sym(p, 1, (), 'c')
        for i, x in zip(us, e):
            if x:
                if (i, x) not in pw:
                    c, s = _trig(T().vars[i])
                    pw[i, x] = (_symvar(c, 'c') + IU * _symvar(s, 'c')) ** x
                term = term * pw[i, x]
        out = out + term
    return out


def _detrig(x):
    """a real x whose form contains unit exponentials, without them"""
    if not _uexps(x.n) and not any(_uexps(P.VT.fac[f]) for f, e in x.d):
        return x
    y = _trigpoly(x.n)
    for f, e in x.d:
        p = P.VT.fac[f]
        d = _trigpoly(p)
        if len(p) == 1:
            # c + i s: the inverse is the conjugate
            y = y * d.conjugate() ** e
        elif S.P_maycomplex(d):
            y = y * (d.conjugate() / (d * d.conjugate())) ** e
        else:
            y = y / d ** e
    return (y / x.q).asreal().withkind('f')


def _sqrt_poly(n):
    t = T()
    vs = t.vars
    out = Sym.const(1, 'f')
    # make the sign of the content explicit
    c = P.pcontent(n)
    n = {k: v // c for k, v in n.items()}
    m = P.mono_gcd(n)
    if m:
        keep = 0
        x, i = m, 0
        while x:
            e = x & FM
            if e:
                v = vs[i]
                if i == 0 or v.conj is not None:
                    # complex variables come in conjugate pairs only through
                    # the whole polynomial: leave them inside
                    keep += 0
                else:
                    if e % 2 and v.pos not in ('+', '0+'):
                        ee = e - 1
                    else:
                        ee = e
                    if ee:
                        n = P.pmonodiv(n, P.mono(i, ee))
                        h = ee // 2
                        if h:
                            b = _symvar(v)
                            if h % 2 and v.pos not in ('+', '0+'):
                                b = absolute(b)
                            out = out * b ** h
                        if ee % 2:
                            out = out * _symvar(_sqrt_key(pvar(i)))
            x >>= W
            i += 1
    a, b = _sqrt_int(c)
    out = out * a
    if len(n) == 1 and 0 in n:
        if n[0] < 0:
            raise Unsupported('sqrt of a negative constant')
        if b != 1:
            out = out * _symvar(_sqrt_key(pconst(b)))
        return out
    # perfect squares
    if len(n) <= 400:
        r = P.psqrt(n) if not P.has_I(n) else None
        if r is not None:
            rs = Sym(r, 1, (), 'c')
            im = rs.imag
            if im.iszero():
                out = out * absolute(rs.real)
                if b != 1:
                    out = out * _symvar(_sqrt_key(pconst(b)))
                return out
        for v, p in T().key.get('sqrtlist', []):
            if 1 < len(p) < len(n):
                q = P.pdivexact(n, p)
                if q is not None and len(q):
                    q = Sym(q, 1, (), 'f')
                    if S.sgn_known(q) in ('+', '0+') or len(p) > 1:
                        r = sqrt_nonneg(q * b)
                        return out * r * _symvar(v)
    if b != 1:
        out = out * _symvar(_sqrt_key(pconst(b)))
    return out * _symvar(_sqrt_key(n))


def sqrt(x):
    x = lift(x)
    if not isinstance(x, Sym):
        if x == math.inf:
            return x
        return math.nan
    if x.iszero():
        return x.withkind('c' if x.k == 'c' else 'f')
    real = x.k != 'c'
    if not real:
        if not S.P_maycomplex(x) or x.imag.iszero():
            xr = x.real
            if bool(xr < 0):
                return (IU * sqrt_nonneg(-xr)).withkind('c')
            return sqrt_nonneg(xr).withkind('c')
        return _csqrt(x)
    if bool(x < 0):
        return math.nan
    return sqrt_nonneg(x)


def _posmono_split(n):
    """n = c * m * rest, with m the part in positive real variables"""
    vs = T().vars
    c = P.pcontent(n)
    if c != 1:
        n = {k: v // c for k, v in n.items()}
    m = P.mono_gcd(n)
    keep = 0
    x, i = m, 0
    while x:
        e = x & FM
        if e and i and vs[i].conj is None and vs[i].pos == '+':
            keep += P.mono(i, e)
        x >>= W
        i += 1
    if keep:
        n = P.pmonodiv(n, keep)
    return c, keep, n


def _csqrt(x):
    # x = y / g**2
    n = pscale(x.n, x.q)
    g = Sym(pconst(x.q), 1, (), 'c')
    for f, e in x.d:
        p = P.VT.fac[f]
        if e % 2:
            n = pmul(n, p)
        g = g * Sym(p, 1, (), 'c') ** ((e + 1) // 2)
    c, m, y = _posmono_split(n)
    pre = Sym({m: c}, 1, (), 'f')
    pre = sqrt_nonneg(pre)
    t = T()
    # +-I * nonnegative real
    if all(k & 1 for k in y):
        w = Sym({k - 1: v for k, v in y.items()}, 1, (), 'c')
        if not S.P_maycomplex(w) or w.imag.iszero():
            wr = w.real
            neg = bool(wr < 0)
            r = sqrt_nonneg((-wr if neg else wr) * HALF)
            base = r * (ONE - IU if neg else ONE + IU)
            return _signed_root(base.withkind('c'), g, pre)
    key = ('csqrt', frozenset(y.items()))
    ent = t.key.get(key)
    gpos = (not S.P_maycomplex(g)) and S.sgn_known(g.asreal()) == '+'
    if ent is None:
        ys = Sym(y, 1, (), 'c')
        yc = ys.conjugate()
        if yc.d:
            raise Unsupported('complex sqrt of an exponential polynomial')
        v = t.new('csqrt(%s)' % S.showpoly(y, 4), 'csqrt')
        w = t.new(v.name + "'", 'csqrt')
        v.conj, w.conj = w, v
        gg = g
        v.info = ('main', ys, None if gpos else gg)

        def ev(env, ys=ys, gg=gg, gpos=gpos):
            s = cmath.sqrt(numeval(ys, env))
            if not gpos:
                gv = numeval(gg, env)
                if (s * gv.conjugate()).real < 0:
                    s = -s
            return s
        v.ev = ev
        w.ev = lambda env, v=v: env[v.idx].conjugate()
        w.info = ('conj', v)
        t.rule_sq(v, y)
        t.rule_sq(w, yc.n)
        t.key[key] = v
        # no choice made: v is *defined* as the root with Re(v/g) >= 0
        return ((_symvar(v, 'c') * pre) / g).withkind('c')
    v = ent
    return _signed_root(_symvar(v, 'c'), g, pre)


def _signed_root(base, g, pre):
    """+-base*pre/g with nonnegative real part (branching on the sign)"""
    r = (base * pre / g).withkind('c')
    rr = r.real
    sg = S.sgn_known(rr)
    if sg in ('+', '0+'):
        return r
    if sg in ('-', '0-'):
        return -r
    if bool(rr < 0):
        return -r
    return r


# ------------------------------------------------------------------------ abs
def absolute(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return abs(x)
    if x.iszero():
        return x.withkind('i' if x.k == 'i' else 'f')
    if x.k != 'c' or not S.P_maycomplex(x):
        xr = x.asreal()
        sg = S.sgn_known(xr)
        if sg in ('+', '0+'):
            return xr
        if sg in ('-', '0-'):
            return -xr
        if bool(xr < 0):
            return -xr
        return xr
    r = _abspoly(x.n)
    if x.q != 1:
        r = r / x.q
    for f, e in x.d:
        r = r / _abspoly(P.VT.fac[f]) ** e
    return r.withkind('f')


def _abspoly(n):
    t = T()
    vs = t.vars
    c = P.pcontent(n)
    out = Sym.const(c, 'f')
    n = {k: v // c for k, v in n.items()}
    m = P.mono_gcd(n)
    if m:
        n = P.pmonodiv(n, m)
        x, i = m, 0
        while x:
            e = x & FM
            if e and i:
                v = vs[i]
                if v.conj is None:
                    b = _symvar(v)
                    out = out * (b ** e if e % 2 == 0 or v.pos in ('+', '0+')
                                 else absolute(b) ** e)
                elif v.conj == 'inv':
                    pass
                else:
                    j = v.conj.idx
                    zz = P.pmul(pvar(i), pvar(j))
                    out = out * sqrt_nonneg(Sym(zz, 1, (), 'f')) ** e
            x >>= W
            i += 1
    if len(n) == 1:
        return out          # +-1 left (content removed), monomial handled
    s = _trigpoly(n)
    if not S.P_maycomplex(s):
        return out * absolute(s.asreal())
    nn = (s * s.conjugate()).asreal()
    if nn.iszero():
        return out * 0
    return out * sqrt_nonneg(nn)


# ------------------------------------------------------------------ exponential
def _conj_mono(m):
    """(I exponent, monomial without I, conjugate monomial or None if 'inv')"""
    vs = T().vars
    b = m & FM
    m0 = m - b
    mc = m0
    x, i = m0, 0
    while x:
        e = x & FM
        if e and i:
            c = vs[i].conj
            if c == 'inv':
                return b, m0, None
            if c is not None:
                mc += (e << (W * c.idx)) - (e << (W * i))
        x >>= W
        i += 1
    return b, m0, mc


def _monokey(m):
    vs = T().vars
    out = []
    i = 0
    while m:
        e = m & FM
        if e:
            out.append('%s^%d' % (vs[i].name, e))
        m >>= W
        i += 1
    return '*'.join(out)


def _singlevar(m):
    i = 0
    while m:
        e = m & FM
        if e:
            return T().vars[i] if (m >> W) == 0 and e == 1 else None
        m >>= W
        i += 1
    return None


_ROOTS = {}


def _rootofunity(c):
    """exp(I*pi*c) for rational c, or None"""
    c = c % 2
    d = c.denominator
    if d == 1:
        return Sym.const(1 if c == 0 else -1, 'c')
    if d == 2:
        return IU if c == Fraction(1, 2) else -IU
    if d in (3, 6, 4):
        def half(num):
            return Sym(pconst(num), 2, (), 'f')
        if d == 4:
            a = sqrt_nonneg(Sym.const(2, 'f')) / 2
            return {1: a + IU * a, 3: -a + IU * a, 5: -a - IU * a,
                    7: a - IU * a}[c.numerator].withkind('c')
        s3 = sqrt_nonneg(Sym.const(3, 'f')) / 2
        k = int(c * 6) % 12
        cs = {0: ONE, 1: s3, 2: half(1), 3: half(0), 4: half(-1), 5: -s3,
              6: -ONE, 7: -s3, 8: half(-1), 9: half(0), 10: half(1), 11: s3}
        return (cs[k] + IU * cs[(k - 3) % 12]).withkind('c')
    return None


def exp(x):
    x = lift(x)
    if not isinstance(x, Sym):
        if x == -math.inf:
            return Sym.const(0, 'f')
        return math.exp(x)
    kind = 'c' if x.k == 'c' else 'f'
    if x.iszero():
        return Sym.const(1, kind)
    t = T()
    # real denominators wanted
    d = x.d
    for f, e in d:
        if not S._realpoly(P.VT.fac[f]):
            # rationalize: multiply numerator and denominator by the conjugate
            fc = S.conjpoly(P.VT.fac[f])
            if fc.d:
                raise Unsupported('exp of quotient of exponentials')
            num = Sym(x.n, x.q, tuple(z for z in d if z[0] != f), 'c')
            nn = (Sym(P.VT.fac[f], 1, (), 'c') * fc)
            num = num * (fc ** e)
            den = nn ** e
            dd, uu = S.factorize_full(den.n)
            y = Sym(pmul(num.n, uu[0]), num.q * uu[1], S._dmul(num.d, dd), 'c')
            return exp(y)
    D = tuple(d)
    Dk = '/'.join('(%s)%d' % (S.showpoly(P.VT.fac[f], 50), e) for f, e in D)
    out = Sym.const(1, kind)
    for m, c in sorted(x.n.items()):
        c = Fraction(c, x.q)
        b, m0, mc = _conj_mono(m)
        if mc is None:
            raise Unsupported('exp of an exponential')
        if not D:
            sv = _singlevar(m0) if m0 else None
            if b and m0 and sv is not None and sv.name == 'pi':
                r = _rootofunity(c)
                if r is not None:
                    out = out * r
                    continue
            if sv is not None and sv.kind == 'ln' and not b:
                if c.denominator <= 2:
                    base = sv.info
                    out = out * (base ** int(c) if c.denominator == 1
                                 else sqrt_nonneg(base) ** int(2 * c))
                    continue
            if sv is not None and sv.kind == 'angle' and b:
                w, aw = sv.info
                if c.denominator == 1:
                    out = out * (w / aw) ** int(c)
                    continue
                if c.denominator == 2:
                    out = out * sqrt((w / aw)) ** int(2 * c)
                    continue
        key = '%d|%s|%s' % (b, _monokey(m0), Dk)
        out = out * _expbase(key, b, m0, mc, D, c)
    return out.withkind(kind)


def _expbase(key, b, m0, mc, D, c):
    t = T()
    u = t.gran.get(key)
    if u is None:
        u = t.gran[key] = abs(c)
    r = c / u
    if r.denominator != 1:
        g = Fraction(math.gcd(c.numerator * u.denominator,
                              u.numerator * c.denominator),
                     c.denominator * u.denominator)
        t.gran[key] = abs(g)
        if ('exp', key) in t.key:
            raise S.Restart()
        u = abs(g)
        r = c / u
    r = int(r)
    if abs(r) > 1000:
        raise Unsupported('exponentials with too different exponents')
    ent = t.key.get(('exp', key))
    if ent is None:
        arg = Sym({m0 + b: u.numerator}, u.denominator, D,
                  'c')
        if mc == m0:
            if b:
                v = t.new('E[%s]' % key, 'uexp', conj='inv')
            else:
                v = t.new('E[%s]' % key, 'rexp', pos='+')
                v.info = arg
            v.arg = arg
            v.ev = lambda env, arg=arg: cmath.exp(numeval(arg, env))
            ent = t.key[('exp', key)] = (v, 1)
        else:
            v = t.new('E[%s]' % key, 'cexp')
            w = t.new("E'[%s]" % key, 'cexp')
            v.conj, w.conj = w, v
            v.info = ('main',)
            w.info = ('conj', v)
            v.arg = arg
            v.ev = lambda env, arg=arg: cmath.exp(numeval(arg, env))
            w.ev = lambda env, v=v: env[v.idx].conjugate()
            ent = t.key[('exp', key)] = (v, 1)
            ckey = '%d|%s|%s' % (b, _monokey(mc), '/'.join(
                '(%s)%d' % (S.showpoly(P.VT.fac[f], 50), e) for f, e in D))
            t.gran[ckey] = u
            t.key[('exp', ckey)] = (w, -1 if b else 1)
    v, sg = ent
    r *= sg
    s = Sym(pvar(v.idx, abs(r)), 1, (), 'c')
    if r < 0:
        s = Sym(pconst(1), 1, ((t.factor(pvar(v.idx)), -r),), 'c')
    return s


def cos(x):
    return _cs(x)[0]


def sin(x):
    return _cs(x)[1]


def _cs(x):
    x = lift(x)
    if x.iszero():
        return Sym.const(1, _up(x)), Sym.const(0, _up(x))
    e = exp(IU * x)
    ei = e.inv() if x.k == 'c' else e.conjugate()
    c = (e + ei) * HALF
    s = (e - ei) * S.MHALFI
    k = 'c' if x.k == 'c' else 'f'
    return c.withkind(k), s.withkind(k)


def _up(x):
    return 'c' if x.k == 'c' else 'f'


def tan(x):
    c, s = _cs(x)
    return s / c


def cosh(x):
    e = exp(x)
    return (e + e.inv()) * HALF


def sinh(x):
    e = exp(x)
    return (e - e.inv()) * HALF


def tanh(x):
    e = exp(x)
    e2 = e * e
    return (e2 - 1) / (e2 + 1)


# ------------------------------------------------------------------- logarithm
def _lnvar(x):
    """ln of a positive real Sym"""
    t = T()
    key = ('ln', frozenset(x.n.items()), x.q, x.d)
    v = t.key.get(key)
    if v is None:
        v = t.new('ln(%s)' % S.show(x)[:60], 'ln')
        v.info = x
        v.ev = lambda env: complex(math.log(max(numeval(x, env).real, 1e-300)))
        if x.isreal_const():
            l = math.log(x.cval())
            v.pos = '+' if l > 0 else '-'
            v.lo = Fraction(l) - Fraction(1, 10 ** 12)
            v.hi = Fraction(l) + Fraction(1, 10 ** 12)
        else:
            v.pos = {'+': '+', '0+': '0+', '-': '-', '0-': '0-'}.get(
                S.sgn_known(x - 1))
        t.key[key] = v
    return _symvar(v)


def ln_real(x):
    if x.isreal_const() and x.cval() == 1:
        return Sym.const(0, 'f')
    # split positive monomials
    vs = T().vars
    out = Sym.const(0, 'f')
    n, q, d = x.n, x.q, x.d
    m = P.mono_gcd(n)
    xx, i = m, 0
    while xx:
        e = xx & FM
        if e and i and vs[i].conj is None and vs[i].pos == '+':
            n = P.pmonodiv(n, P.mono(i, e))
            v = vs[i]
            if v.kind == 'sqrt':
                out = out + ln_real(Sym(T().sq[i], 1, (), 'f')) * Fraction(e, 2)
            elif v.kind == 'rexp':
                out = out + v.info.asreal() * e
            else:
                out = out + _lnvar(_symvar(v)) * e
        xx >>= W
        i += 1
    dd = []
    for f, e in d:
        p = P.VT.fac[f]
        if len(p) == 1 and S._psgn(p) == '+':
            out = out - ln_real(Sym(p, 1, (), 'f')) * e
        else:
            dd.append((f, e))
    rest = Sym(n, q, tuple(dd), 'f')
    if rest.isreal_const() and rest.cval() == 1:
        return out
    if rest.isreal_const():
        # prime powers of 10 are frequent: ln(10**k) = k ln 10
        r = rest.cval()
        k = 0
        while r.denominator == 1 and r > 1 and r.numerator % 10 == 0:
            r /= 10
            k += 1
        while r.numerator == 1 and r.denominator % 10 == 0:
            r *= 10
            k -= 1
        if k:
            out = out + _lnvar(Sym.const(Fraction(10), 'f')) * k
            if r == 1:
                return out
            rest = Sym.const(r, 'f')
    return out + _lnvar(rest)


def log(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return math.log(x) if x > 0 else math.nan
    if x.k == 'c' and S.P_maycomplex(x):
        a = absolute(x)
        return (ln_real(a) + IU * angle(x)).withkind('c')
    xr = x.asreal()
    if xr.iszero():
        return -math.inf
    if bool(xr < 0):
        if x.k == 'c':
            return (ln_real(-xr) + IU * pi()).withkind('c')
        return math.nan
    return ln_real(xr).withkind('c' if x.k == 'c' else 'f')


def ln10():
    return _lnvar(Sym.const(Fraction(10), 'f'))


def log10(x):
    r = log(x)
    if not isinstance(r, Sym):
        return r
    return r / ln10()


def power(b, e):
    """b ** e for non constant exponents / non half integer constants"""
    if b.isreal_const() and b.cval() == 1:
        return ONE
    if e.isreal_const():
        c = e.cval()
        if c.denominator in (4, 8):
            return power(sqrt(b), e * 2) if c.denominator > 4 else \
                sqrt(sqrt(b)) ** int(4 * c)
    if b.k == 'c' and S.P_maycomplex(b):
        return exp(e * log(b))
    if b.iszero():
        if bool(e > 0):
            return Sym.const(0, 'f')
        if bool(e < 0):
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
        return ONE
    return exp(e * ln_real(_needpos(b)))


def _needpos(b):
    if bool(b <= 0):
        raise Unsupported('power of a non positive number')
    return b


# ---------------------------------------------------------------------- angle
def angle(x):
    x = lift(x)
    if x.iszero():
        return Sym.const(0, 'f')
    if x.k != 'c' or not S.P_maycomplex(x):
        if bool(x.asreal() < 0):
            return pi()
        return Sym.const(0, 'f')
    # direction: n * prod conj(f)**e
    w = Sym(x.n, 1, (), 'c')
    for f, e in x.d:
        p = P.VT.fac[f]
        if S._realpoly(p):
            if S._psgn(p) == '+' or e % 2 == 0:
                continue
        w = w * Sym(p, 1, (), 'c').conjugate() ** e
    if not w.d:
        c, m, y = _posmono_split(w.n)
        w = Sym(y, 1, (), 'c')
    if w.imag.iszero():
        if bool(w.real < 0):
            return pi()
        return Sym.const(0, 'f')
    if w.real.iszero():
        if bool(w.imag < 0):
            return -pi() / 2
        return pi() / 2
    if w.isconst():
        re, im = w.ccval()
        if abs(re) == abs(im):
            q = pi() / 4
            return {(1, 1): q, (-1, 1): 3 * q, (-1, -1): -3 * q,
                    (1, -1): -q}[(1 if re > 0 else -1, 1 if im > 0 else -1)]
    t = T()
    key = ('angle', frozenset(w.n.items()), w.d)
    v = t.key.get(key)
    if v is None:
        aw = absolute(w)
        v = t.new('arg(%s)' % S.showpoly(w.n, 4), 'angle')
        v.info = (w, aw)
        v.ev = lambda env: complex(cmath.phase(numeval(w, env)))
        pi()
        t.key[key] = v
    return _symvar(v)


def arctan2(y, x):
    return angle(lift(x) + IU * lift(y))


def arctan(y):
    return angle(ONE + IU * lift(y))


def arccos(x):
    x = lift(x)
    return angle(x + IU * sqrt(1 - x * x))


def arcsin(x):
    x = lift(x)
    return angle(sqrt(1 - x * x) + IU * x)


# --------------------------------------------------------------- integer parts
def toint(x):
    """int(x): truncation, concretized by branching"""
    if x.k == 'c':
        raise TypeError("int() argument must be a real number")
    if bool(x < 0):
        return -_floorint(-x)
    return _floorint(x)


def _floorint(x):
    if x.isreal_const():
        return math.floor(x.cval())
    return S.CTX.concretize_floor(x)


def floor(x):
    x = lift(x)
    return Sym.const(Fraction(_floorint(x)), 'f')


def ceil(x):
    x = lift(x)
    if x.isreal_const():
        return Sym.const(Fraction(math.ceil(x.cval())), 'f')
    return Sym.const(Fraction(-_floorint(-x)), 'f')


def rounded(x, nd=None):
    """a number within half a unit of decimal nd of x"""
    if nd is None:
        return _floorint(x + HALF)
    t = T()
    key = ('round', frozenset(x.n.items()), x.q, x.d, nd)
    v = t.key.get(key)
    if v is None:
        v = t.new('rnd%d' % len(t.vars), 'real')
        h = Fraction(1, 2) / Fraction(10) ** nd
        v.lo, v.hi = -h, h
        v.info = 'round'

        def ev(env):
            xv = numeval(x, env).real
            return complex(float(round(xv, nd) - xv))
        v.ev = ev
        t.key[key] = v
    return (x + _symvar(v)).withkind('f')


class LazyCeil:
    """ceil(x): comparisons with integers are decided without the value itself"""
    __slots__ = ('x', 'n')

    def __init__(self, x):
        self.x, self.n = x, None

    def __int__(self):
        if self.n is None:
            self.n = -_floorint(-self.x)
        return self.n

    __index__ = __int__

    def _sym(self):
        return Sym.const(Fraction(int(self)), 'f')

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return int(self) != 0

    def _cmp(self, o, k):
        if self.n is None and isinstance(o, int):
            x = self.x
            return {'>': lambda: x > o, '>=': lambda: x > o - 1,
                    '<': lambda: x <= o - 1, '<=': lambda: x <= o}[k]()
        s = int(self)
        return {'>': lambda: s > o, '>=': lambda: s >= o, '<': lambda: s < o,
                '<=': lambda: s <= o}[k]()

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __getattr__(self, k):
        return getattr(self._sym(), k)


def _lazyop(name):
    def op(self, *a):
        return getattr(self._sym(), name)(*a)
    return op


for _o in ('add sub mul truediv floordiv mod pow'.split()):
    for _p in ('__%s__', '__r%s__'):
        setattr(LazyCeil, _p % _o, _lazyop(_p % _o))
for _o in ('__neg__', '__pos__', '__abs__', '__eq__', '__ne__', '__round__', '__format__',
           '__str__', '__repr__'):
    setattr(LazyCeil, _o, _lazyop(_o))
