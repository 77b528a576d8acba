"""Symbolic numbers: rational functions over a table of variables.

Sym = n / (q * prod f_i**e_i) with n a polynomial (engine.poly), q > 0 an
integer and f_i interned, primitive, non constant polynomials.  Kinds: 'i'
(python/numpy integer), 'f' (real floating point number), 'c' (complex).
Floating point numbers of the program are modelled by exact numbers.
"""
import cmath
import math
from fractions import Fraction
from . import poly as P
from .poly import (pconst, pvar, padd, psub, pmul, pscale, pcontent, W, FM)


class Unsupported(Exception):
    """the construct is outside what the encoding covers"""


class Infeasible(BaseException):
    """the current path is infeasible"""


class PathLimit(BaseException):
    pass


class Restart(BaseException):
    """the granularity of an exponential basis changed: start over"""


CTX = None          # current path context (engine.core.Ctx)


def set_ctx(c):
    global CTX
    CTX = c


# ------------------------------------------------------------------ variables
class Var:
    __slots__ = ('idx', 'name', 'kind', 'conj', 'lo', 'hi', 'pos', 'ev', 'defs',
                 'z3', 'info', 'sample', 'inp', 'arg')

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.conj = None      # Var or None (real) or 'inv'
        self.lo = self.hi = None
        self.pos = None       # '+': > 0, '0+': >= 0, '-' , '0-'
        self.ev = None        # f(env) -> complex
        self.defs = None      # f(z3tools) -> list of constraints
        self.z3 = None
        self.arg = None
        self.info = None
        self.sample = None
        self.inp = False


class Table(P.VarTable):
    """variables + derived-variable interning for one path execution"""

    def __init__(self, gran=None):
        super().__init__()
        self.byname = {}
        self.key = {}
        self.gran = gran if gran is not None else {}
        v = Var('I', 'I')
        v.ev = lambda env: 1j
        self._add(v)
        self.sq[0] = {0: -1}
        self.sqmask |= 2            # exponent >= 2 of variable 0 ...
        self.sqmask |= (FM & ~1)    # ... any higher bit of the field

    def _add(self, v):
        v.idx = len(self.vars)
        self.vars.append(v)
        self.byname[v.name] = v
        return v

    def new(self, name, kind, **kw):
        base, i = name, 1
        while name in self.byname:
            i += 1
            name = '%s#%d' % (base, i)
        v = Var(name, kind)
        for k, x in kw.items():
            setattr(v, k, x)
        return self._add(v)

    def rule_sq(self, v, poly):
        self.sq[v.idx] = poly
        self.sqmask |= (FM & ~1) << (W * v.idx)

    def rule_sub(self, v, poly):
        self.sub[v.idx] = poly
        self.submask |= FM << (W * v.idx)

    def factor(self, p):
        """intern primitive polynomial p (leading coefficient > 0)"""
        k = frozenset(p.items())
        i = self.faci.get(k)
        if i is None:
            i = len(self.fac)
            self.fac.append(p)
            self.faci[k] = i
        return i


def T():
    return P.VT


# ------------------------------------------------------------------------- Sym
def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('special float %r' % x)
        # the decimal literal nearest to the float, so that 0.1 means 1/10
        x = float(x)
        return Fraction(repr(x)) if len(repr(x)) <= 17 else Fraction(x)
    raise TypeError(type(x))


class Sym:
    __slots__ = ('n', 'q', 'd', 'k')
    __array_priority__ = 50.0

    def __init__(self, n, q=1, d=(), k='f'):
        self.n = n
        self.q = q
        self.d = d
        self.k = k

    # -------------------------------------------------------------- constants
    @staticmethod
    def const(x, k=None):
        if isinstance(x, complex):
            re, im = _frac(x.real), _frac(x.imag)
            q = re.denominator * im.denominator // math.gcd(re.denominator,
                                                            im.denominator)
            n = {}
            if re:
                n[0] = int(re * q)
            if im:
                n[1] = int(im * q)
            return Sym(n, q, (), k or 'c')
        if k is None:
            k = 'i' if isinstance(x, int) else 'f'
        f = _frac(x)
        return Sym(pconst(f.numerator), f.denominator, (), k)

    def isconst(self):
        n = self.n
        return not self.d and (not n or (len(n) <= 2 and not any(k > 1 for k in n)))

    def isreal_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def cval(self):
        """Fraction of a real constant"""
        return Fraction(self.n.get(0, 0), self.q)

    def ccval(self):
        return Fraction(self.n.get(0, 0), self.q), Fraction(self.n.get(1, 0), self.q)

    def iszero(self):
        if not self.n:
            return True
        if P.VT.submask:
            self.n = P.reduce_(self.n)
        return not self.n

    def asreal(self):
        """same value, declared real"""
        return self if self.k != 'c' else Sym(self.n, self.q, self.d, 'f')

    def withkind(self, k):
        return self if self.k == k else Sym(self.n, self.q, self.d, k)

    # ------------------------------------------------------------- arithmetic
    def __add__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__add__')
        if not isinstance(o, Sym):
            return _special(self, '+', o)
        k = self.k if self.k >= o.k else o.k
        k = _kmax(self.k, o.k)
        if not self.n:
            return o.withkind(k)
        if not o.n:
            return self.withkind(k)
        if self.d == o.d:
            g = math.gcd(self.q, o.q)
            n = padd(pscale(self.n, o.q // g), pscale(o.n, self.q // g))
            return norm(n, self.q // g * o.q, self.d, k)
        L, ma, mb = _lcm(self.d, o.d)
        g = math.gcd(self.q, o.q)
        na = pscale(self.n, o.q // g)
        nb = pscale(o.n, self.q // g)
        for f, e in ma:
            for _ in range(e):
                na = pmul(na, P.VT.fac[f])
        for f, e in mb:
            for _ in range(e):
                nb = pmul(nb, P.VT.fac[f])
        return norm(padd(na, nb), self.q // g * o.q, L, k)

    def __radd__(self, o):
        return self + o

    def __neg__(self):
        return Sym(pscale(self.n, -1), self.q, self.d, self.k)

    def __pos__(self):
        return self

    def __sub__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__sub__')
        if not isinstance(o, Sym):
            return _special(self, '-', o)
        return self + (-o)

    def __rsub__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__rsub__')
        if not isinstance(o, Sym):
            return _special(o, '-', self)
        return o + (-self)

    def __mul__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__mul__')
        if not isinstance(o, Sym):
            return _special(self, '*', o)
        k = _kmax(self.k, o.k)
        if not self.n or not o.n:
            return Sym({}, 1, (), k)
        # constants
        if len(self.n) == 1 and 0 in self.n and not self.d:
            return normc(pscale(o.n, self.n[0]), self.q * o.q, o.d, k)
        if len(o.n) == 1 and 0 in o.n and not o.d:
            return normc(pscale(self.n, o.n[0]), self.q * o.q, self.d, k)
        an, bn = self.n, o.n
        # cross cancellation
        ad, bd = self.d, o.d
        if bd:
            an, bd = _cancel(an, bd)
        if ad:
            bn, ad = _cancel(bn, ad)
        L = _dmul(ad, bd)
        return norm(pmul(an, bn), self.q * o.q, L, k, cancel=bool(P.VT.sq) and
                    len(P.VT.sq) > 1)

    def __rmul__(self, o):
        return self * o

    def inv(self):
        if self.iszero():
            raise ZeroDivisionError('division by zero')
        n = self.n
        # rationalize an isolated imaginary unit in constants / monomials
        if not self.d and self.isconst():
            re, im = self.ccval()
            m = re * re + im * im
            return cconst(re / m, -im / m, self.k if self.k != 'i' else 'f')
        q = pcontent(n)
        if q != 1:
            n = {k: c // q for k, c in n.items()}
        num = pconst(self.q)
        for f, e in self.d:
            for _ in range(e):
                num = pmul(num, P.VT.fac[f])
        d, unit = factorize(n)
        num = pmul(num, unit[0])
        return norm(num, q * unit[1], d, 'f' if self.k == 'i' else self.k)

    def __truediv__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__truediv__')
        if not isinstance(o, Sym):
            return _special(self, '/', o)
        if o.iszero():
            raise ZeroDivisionError('float division by zero')
        if CTX is not None and not o.isconst():
            CTX.note_div(o)
        if self.iszero():
            return Sym({}, 1, (), _kmax(_kmax(self.k, o.k), 'f'))
        if self.d == o.d and self.d:
            return Sym(self.n, self.q, (), _kmax(self.k, 'f')) * \
                   Sym(o.n, o.q, (), o.k).inv()
        return (self * o.inv()).withkind(_kmax(_kmax(self.k, o.k), 'f'))

    def __rtruediv__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__rtruediv__')
        if not isinstance(o, Sym):
            return _special(o, '/', self)
        return o / self

    def __pow__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__pow__')
        if not isinstance(o, Sym):
            raise Unsupported('pow special')
        if o.isreal_const():
            e = o.cval()
            if e.denominator == 1:
                e = int(e)
                if self.k == 'i' and e < 0:
                    base = self.withkind('f')
                else:
                    base = self
                if e < 0:
                    base, e = base.inv(), -e
                r = Sym.const(1, 'i').withkind(_kmax(base.k, o.k if o.k != 'i'
                                                     else 'i'))
                b = base
                while e:
                    if e & 1:
                        r = r * b
                    e >>= 1
                    if e:
                        b = b * b
                return r
            if (2 * e).denominator == 1:
                from . import funcs
                return funcs.sqrt(self) ** int(2 * e)
        from . import funcs
        return funcs.power(self, o)

    def __rpow__(self, o):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, '__rpow__')
        return o ** self

    def __mod__(self, o):
        o = lift(o)
        if isinstance(o, Sym) and self.isreal_const() and o.isreal_const():
            r = self.cval() % o.cval()
            return Sym.const(r, _kmax(self.k, o.k))
        raise Unsupported('modulo of symbolic number')

    def __rmod__(self, o):
        o = lift(o)
        return o % self

    def __floordiv__(self, o):
        o = lift(o)
        if isinstance(o, Sym) and self.isreal_const() and o.isreal_const():
            return Sym.const(Fraction(self.cval() // o.cval()),
                             _kmax(self.k, o.k))
        from . import funcs
        return funcs.floor(self / o)

    def __rfloordiv__(self, o):
        return lift(o) // self

    # ------------------------------------------------------------- complex API
    @property
    def real(self):
        if self.k != 'c':
            return self
        if not P_maycomplex(self):
            return self.asreal()
        return ((self + self.conjugate()) * HALF).asreal()

    @property
    def imag(self):
        if self.k != 'c':
            return Sym({}, 1, (), self.k)
        if not P_maycomplex(self):
            return Sym({}, 1, (), 'f')
        return ((self - self.conjugate()) * MHALFI).asreal()

    def conjugate(self):
        if self.k != 'c':
            return self
        r = conjpoly(self.n)
        res = r * Sym(pconst(1), self.q, (), 'c')
        for f, e in self.d:
            c = conjpoly(P.VT.fac[f])
            res = res * (c.inv() ** e)
        return res.withkind('c')

    conj = conjugate

    def __abs__(self):
        from . import funcs
        return funcs.absolute(self)

    # numpy calls these methods for object arrays
    def sqrt(self):
        from . import funcs
        return funcs.sqrt(self)

    def exp(self):
        from . import funcs
        return funcs.exp(self)

    def cos(self):
        from . import funcs
        return funcs.cos(self)

    def sin(self):
        from . import funcs
        return funcs.sin(self)

    def tan(self):
        from . import funcs
        return funcs.tan(self)

    def log(self):
        from . import funcs
        return funcs.log(self)

    def log10(self):
        from . import funcs
        return funcs.log10(self)

    def rint(self):
        raise Unsupported('rint')

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t, **kw):
        from .shim import coerce_scalar
        return coerce_scalar(self, t)

    def is_integer(self):
        return self.isreal_const() and self.cval().denominator == 1

    shape = ()
    ndim = 0
    size = 1

    # -------------------------------------------------------------- comparison
    def __eq__(self, o):
        x, o = o, lift(o)
        if o is None:
            r = _nd(x, self, '__eq__')
            return False if r is NotImplemented else r
        if not isinstance(o, Sym):
            return False
        d = self - o
        return mkbool('==', d)

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, (bool, SymBool)):
            return (not r) if isinstance(r, bool) else ~r
        return ~r

    def _cmp(self, o, op):
        x, o = o, lift(o)
        if o is None:
            return _nd(x, self, {'<': '__lt__', '<=': '__le__', '>': '__gt__',
                                 '>=': '__ge__'}[op])
        if not isinstance(o, Sym):
            # +-inf / nan
            if o != o:
                return False
            big = o > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big}[op]
        if self.k == 'c' or o.k == 'c':
            raise TypeError("'%s' not supported between instances of 'complex'"
                            % op)
        d = self - o
        if op in ('>', '>='):
            d = -d
            op = '<' if op == '>' else '<='
        return mkbool(op, d)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __hash__(self):
        if self.isreal_const():
            return hash(self.cval())
        if self.isconst():
            re, im = self.ccval()
            return hash(complex(re, im))
        # all symbolic numbers share one bucket: a lookup compares them and
        # forks on equality.  A symbolic number is never found equal to a
        # literal key (a measure-zero case that is out of bounds).
        return 771144

    def __bool__(self):
        r = mkbool('==', self)
        return not bool(r)

    # -------------------------------------------------------------- conversion
    def __float__(self):
        if self.isreal_const():
            return float(self.cval())
        raise Unsupported('float() of a symbolic number outside the encoding')

    def __int__(self):
        if self.isreal_const():
            return int(self.cval())
        from . import funcs
        return funcs.toint(self)

    def __trunc__(self):
        return self.__int__()

    def __complex__(self):
        if self.isconst():
            re, im = self.ccval()
            return complex(re, im)
        raise Unsupported('complex() of a symbolic number')

    def __index__(self):
        if self.k == 'i':
            return self.__int__()
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, nd=None):
        if self.isreal_const():
            r = round(self.cval(), nd) if nd is not None else round(self.cval())
            return Sym.const(Fraction(r), 'f' if nd is not None else 'i') \
                if nd is not None else int(r)
        from . import funcs
        return funcs.rounded(self, nd)

    def __ceil__(self):
        if self.isreal_const():
            return math.ceil(self.cval())
        from . import funcs
        return funcs.toint(funcs.ceil(self))

    def __floor__(self):
        if self.isreal_const():
            return math.floor(self.cval())
        from . import funcs
        return funcs.toint(funcs.floor(self))

    def __format__(self, spec):
        from . import text
        return text.fmt(self, spec)

    def __str__(self):
        from . import text
        return text.fmt(self, '')

    def __repr__(self):
        return 'Sym(%s)' % show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic number')


def _nd(x, self, name):
    """self op x for a (non object) numpy array x, elementwise"""
    import numpy as np
    if not isinstance(x, np.ndarray):
        return NotImplemented
    from .shim import _map
    r = _map(lambda v: getattr(self, name)(v), x)
    if name in ('__eq__', '__lt__', '__le__', '__gt__', '__ge__'):
        return np.array([bool(v) for v in r.ravel()], dtype=bool).reshape(r.shape)
    return r


def _kmax(a, b):
    if a == 'c' or b == 'c':
        return 'c'
    if a == 'f' or b == 'f':
        return 'f'
    return 'i'


def P_maycomplex(s):
    """could the value be non real?  (False means certainly real)"""
    vs = P.VT.vars
    for i in P.pvars(s.n):
        if i == 0 or vs[i].conj is not None:
            return True
    for f, _ in s.d:
        for i in P.pvars(P.VT.fac[f]):
            if i == 0 or vs[i].conj is not None:
                return True
    return False


def _special(a, op, b):
    """arithmetic with a non finite float"""
    def val(x):
        if isinstance(x, Sym):
            if x.isreal_const():
                return float(x.cval())
            return None
        return x
    va, vb = val(a), val(b)
    sa = a if isinstance(a, Sym) else None
    sb = b if isinstance(b, Sym) else None
    if isinstance(va, float) and va != va or isinstance(vb, float) and vb != vb:
        return math.nan
    s = sa if sa is not None else sb
    if s is not None and s.k == 'c':
        if op == '/' and s is sa and isinstance(vb, float) and math.isinf(vb):
            return Sym.const(0, 'c')
        raise Unsupported('complex arithmetic with a non finite number')
    if va is not None and vb is not None:
        if op == '/':
            if isinstance(va, float) and not math.isinf(va) and math.isinf(vb):
                return Sym.const(0, 'f')
            return va / vb
        return {'+': lambda: va + vb, '-': lambda: va - vb,
                '*': lambda: va * vb}[op]()
    if op == '+':
        return vb if va is None else va
    if op == '-':
        return -vb if va is None else va
    if op == '/' and va is None:
        return Sym.const(0, 'f')
    inf = vb if va is None else va
    # sign decision on the finite factor
    if bool(s > 0):
        return inf
    if bool(s < 0):
        return -inf
    return math.nan


def lift(x):
    """python / numpy number -> Sym (None: not a number)"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return Sym.const(1 if bool(x) else 0, 'i')
    if isinstance(x, bool):
        return Sym.const(int(x), 'i')
    if isinstance(x, (int, Fraction)):
        return Sym.const(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return x
        return Sym.const(x)
    if isinstance(x, complex):
        if not (math.isfinite(x.real) and math.isfinite(x.imag)):
            raise Unsupported('non finite complex number')
        return Sym.const(x)
    if hasattr(type(x), '_sym'):
        return x._sym()
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.shape == () and x.dtype != object:
            return lift(x.item())
        if x.shape == ():
            return lift(x.item())
        return None
    if isinstance(x, np.generic):
        return lift(x.item())
    return None


def cconst(re, im, k='c'):
    re, im = Fraction(re), Fraction(im)
    q = re.denominator * im.denominator // math.gcd(re.denominator, im.denominator)
    n = {}
    if re:
        n[0] = int(re * q)
    if im:
        n[1] = int(im * q)
    return Sym(n, q, (), k)


HALF = Sym({0: 1}, 2, (), 'f')
MHALFI = Sym({1: -1}, 2, (), 'c')
IU = Sym({1: 1}, 1, (), 'c')
ONE = Sym({0: 1}, 1, (), 'f')
ZERO = Sym({}, 1, (), 'f')


def _lcm(a, b):
    da, db = dict(a), dict(b)
    L, ma, mb = {}, [], []
    for f in set(da) | set(db):
        ea, eb = da.get(f, 0), db.get(f, 0)
        m = ea if ea > eb else eb
        L[f] = m
        if m > ea:
            ma.append((f, m - ea))
        if m > eb:
            mb.append((f, m - eb))
    return tuple(sorted(L.items())), ma, mb


def _dmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for f, e in b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def _cancel(n, d):
    """cancel denominator factors dividing n"""
    if not n:
        return n, ()
    out = None
    for j, (f, e) in enumerate(d):
        p = P.VT.fac[f]
        ee = e
        while ee:
            q = P.pdivexact(n, p)
            if q is None:
                break
            n = q
            ee -= 1
        if ee != e:
            if out is None:
                out = dict(d)
            if ee:
                out[f] = ee
            else:
                del out[f]
    if out is not None:
        d = tuple(sorted(out.items()))
    return n, d


def norm(n, q, d, k, cancel=True):
    if not n:
        return Sym({}, 1, (), k)
    if d and cancel:
        n, d = _cancel(n, d)
    return normc(n, q, d, k)


def normc(n, q, d, k):
    if not n:
        return Sym({}, 1, (), k)
    if q != 1:
        g = math.gcd(pcontent(n), q)
        if g != 1:
            n = {m: c // g for m, c in n.items()}
            q //= g
    return Sym(n, q, d, k)


def factorize(n):
    """n (primitive polynomial) -> (denominator factors, (unit poly, int)).

    1/n = unit_poly / (int * prod factors).  Splits the monomial part and
    known factors; turns an imaginary unit in the monomial part around."""
    unit, q = pconst(1), 1
    d = {}
    m = P.mono_gcd(n)
    if m:
        n = P.pmonodiv(n, m)
        i, x = 0, m
        while x:
            e = x & FM
            if e:
                if i == 0:
                    # 1/I = -I
                    unit = pmul(unit, {1: -1})
                else:
                    v = P.VT.vars[i]
                    if i in P.VT.sq:
                        # 1/s = s/s**2
                        r = P.VT.sq[i]
                        # n contains s**1 only
                        s1 = Sym(r, 1, (), 'f')
                        unit = pmul(unit, pvar(i))
                        dd, uu = factorize_full(r)
                        unit = pmul(unit, uu[0])
                        q *= uu[1]
                        for f, ee in dd:
                            d[f] = d.get(f, 0) + ee
                    else:
                        f = P.VT.factor(pvar(i))
                        d[f] = d.get(f, 0) + e
            x >>= W
            i += 1
    # constants with I
    if all(k <= 1 for k in n):
        a, b = n.get(0, 0), n.get(1, 0)
        if b:
            mm = a * a + b * b
            unit = pmul(unit, {k: v for k, v in ((0, a), (1, -b)) if v})
            q *= mm
        else:
            q *= a
            if q < 0:
                q, unit = -q, pscale(unit, -1)
        g = math.gcd(pcontent(unit), q)
        if g > 1:
            unit = {k: c // g for k, c in unit.items()}
            q //= g
        return tuple(sorted(d.items())), (unit, q)
    # known factors
    if len(n) > 3 and len(n) < 3000:
        for i, f in enumerate(P.VT.fac):
            if 1 < len(f) < len(n) and f is not n:
                while True:
                    r = P.pdivexact(n, f, 5000)
                    if r is None:
                        break
                    d[i] = d.get(i, 0) + 1
                    n = r
                    if all(k <= 1 for k in n):
                        break
                if all(k <= 1 for k in n):
                    break
    if all(k <= 1 for k in n):
        dd, uu = factorize(n)
        unit = pmul(unit, uu[0])
        q *= uu[1]
    else:
        # sign normalisation on the leading coefficient; turn pure-I leading
        lk = max(n)
        if lk & 1 and all(k & 1 for k in n):
            n = {k - 1: c for k, c in n.items()}
            unit = pmul(unit, {1: -1})
            lk -= 1
        if n[lk] < 0:
            n = pscale(n, -1)
            unit = pscale(unit, -1)
        f = P.VT.factor(n)
        d[f] = d.get(f, 0) + 1
    return tuple(sorted(d.items())), (unit, q)


def factorize_full(p):
    c = pcontent(p)
    if c != 1:
        p = {k: v // c for k, v in p.items()}
    d, u = factorize(p)
    return d, (u[0], u[1] * c)


def conjpoly(p):
    """conjugate of a polynomial as a Sym"""
    vs = P.VT.vars
    swap = []
    invs = []
    I = False
    for i in P.pvars(p):
        if i == 0:
            I = True
        else:
            c = vs[i].conj
            if c is None:
                continue
            if c == 'inv':
                invs.append(i)
            else:
                swap.append((i, c.idx))
    if not (I or swap or invs):
        return Sym(p, 1, (), 'c')
    maxe = {i: 0 for i in invs}
    for k in p:
        for i in invs:
            e = (k >> (W * i)) & FM
            if e > maxe[i]:
                maxe[i] = e
    out = {}
    for k, c in p.items():
        if k & 1:
            c = -c
        kk = k
        for i, j in swap:
            e = (k >> (W * i)) & FM
            if e:
                kk += (e << (W * j)) - (e << (W * i))
        for i in invs:
            e = (k >> (W * i)) & FM
            kk += (maxe[i] - e - e) << (W * i)
        out[kk] = out.get(kk, 0) + c
    r = Sym(P.reduce_(out), 1, (), 'c')
    if invs:
        d = tuple(sorted((P.VT.factor(pvar(i)), maxe[i]) for i in invs
                         if maxe[i]))
        r = norm(r.n, 1, d, 'c')
    return r


# --------------------------------------------------------------------- display
def showpoly(p, lim=12):
    vs = P.VT.vars
    out = []
    for k in sorted(p, reverse=True)[:lim]:
        c = p[k]
        t = []
        i = 0
        while k:
            e = k & FM
            if e:
                t.append(vs[i].name + ('' if e == 1 else '^%d' % e))
            k >>= W
            i += 1
        out.append(('%d' % c if c != 1 or not t else '') + '*'.join(t))
    s = ' + '.join(out) or '0'
    if len(p) > lim:
        s += ' + ... (%d terms)' % len(p)
    return s


def show(s):
    if not isinstance(s, Sym):
        return repr(s)
    r = showpoly(s.n)
    if s.q != 1 or s.d:
        r = '(%s)/(%d%s)' % (r, s.q, ''.join(
            '*(%s)%s' % (showpoly(P.VT.fac[f], 6), '' if e == 1 else '^%d' % e)
            for f, e in s.d))
    return r


# ----------------------------------------------------------------- SymBool
class SymBool:
    """a condition that is not decided by constants"""
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        return CTX.branch(self)

    def __invert__(self):
        return SymBool('not', self)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool('and', self, o)
        if isinstance(o, (bool, int)):
            return self if o else False
        import numpy as np
        if isinstance(o, np.bool_):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool('or', self, o)
        import numpy as np
        if isinstance(o, (bool, int, np.bool_)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        if self.op in ('==', '<', '<='):
            return '[%s %s 0]' % (show(self.a), self.op)
        return '[%s %r %r]' % (self.op, self.a, self.b)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__


def sgn_known(s):
    """sign of a real Sym from the declared signs: '+','-','0','0+','0-',None"""
    if s.iszero():
        return '0'
    r = _psgn(s.n)
    if r is None:
        return None
    for f, e in s.d:
        if e % 2 == 0 and _realpoly(P.VT.fac[f]):
            continue
        g = _psgn(P.VT.fac[f])
        if g in ('+', '0+'):
            continue
        if g in ('-', '0-'):
            r = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0'}[r]
        else:
            return None
    return r


def _realpoly(p):
    vs = P.VT.vars
    for i in P.pvars(p):
        if i == 0 or vs[i].conj is not None:
            return False
    return True


def _psgn(p):
    r = _psgn1(p)
    if r is None and 1 < len(p) <= 40:
        vs = P.VT.vars
        for i in P.pvars(p):
            if vs[i].kind == 'sqrt':
                r = _psgn_sqrt(p, i)
                if r is not None:
                    return r
    return r


def _psgn_sqrt(p, i):
    """sign of a s + b, s a square root: compare a^2 s^2 with b^2"""
    a, b = {}, {}
    for k, c in p.items():
        e = (k >> (W * i)) & FM
        if e == 0:
            b[k] = c
        elif e == 1:
            a[k - (1 << (W * i))] = c
        else:
            return None
    sa = _psgn1(a)
    if sa is None or not b or not _realpoly(p):
        return None
    sv = P.pvar(i)
    d = P.psub(P.pmul(P.pmul(a, sv), P.pmul(a, sv)), P.pmul(b, b))
    sd = _psgn1(d)
    if sd in ('+', '0+', '0'):
        r = '+' if sd == '+' else '0+'
        return r if sa in ('+', '0+') else {'+': '-', '0+': '0-'}[r]
    if sd in ('-', '0-'):
        sb = _psgn1(b)
        if sb is None:
            return None
        r = '+' if sd == '-' else '0+'
        return r if sb in ('+', '0+') else {'+': '-', '0+': '0-'}[r]
    return None


def _psgn1(p):
    vs = P.VT.vars
    tot = None
    strict = False
    for k, c in p.items():
        sg = 1 if c > 0 else -1
        st = True
        if k & FM:
            return None
        x, i = k, 0
        while x:
            e = x & FM
            if e:
                v = vs[i]
                if v.pos is None:
                    if e % 2 or v.conj is not None:
                        return None
                    st = False
                elif v.pos == '+':
                    pass
                elif v.pos == '0+':
                    st = False
                elif v.pos in ('-', '0-'):
                    if e % 2:
                        sg = -sg
                    if v.pos == '0-':
                        st = False
                else:
                    return None
            x >>= W
            i += 1
        if tot is None:
            tot = sg
        elif tot != sg:
            return None
        strict = strict or st
    if tot is None:
        return '0'
    return ('+' if tot > 0 else '-') if strict else ('0+' if tot > 0 else '0-')


def _twosqrt(d):
    """d = A1 M1 + A2 M2 with products M of (non negative) square roots and opposite
    signs of A1 and A2: a Sym of the same sign without these square roots, or None"""
    vs = P.VT.vars
    if not 1 < len(d.n) <= 400 or not _realpoly(d.n):
        return None
    sq = [i for i in P.pvars(d.n) if vs[i].kind == 'sqrt']
    if not sq:
        return None
    mask = 0
    for i in sq:
        if vs[i].pos not in ('+', '0+'):
            return None
        mask |= FM << (W * i)
    groups = {}
    for k, c in d.n.items():
        groups.setdefault(k & mask, {})[k & ~mask] = c
        if len(groups) > 2:
            return None
    if len(groups) != 2:
        return None
    sg = [_psgn(A) for A in groups.values()]
    if None in sg:
        return None
    for f, e in d.d:
        if e % 2 == 0 and _realpoly(P.VT.fac[f]):
            continue
        if _psgn(P.VT.fac[f]) not in ('+', '0+'):
            return None
    (M1, A1), (M2, A2) = groups.items()
    if sg[0] in ('-', '0-') and sg[1] in ('+', '0+'):
        (M1, A1), (M2, A2) = (M2, A2), (M1, A1)
    elif not (sg[0] in ('+', '0+') and sg[1] in ('-', '0-')):
        return None
    a, b = P.pmul(A1, {M1: 1}), P.pmul(A2, {M2: 1})
    return Sym(P.psub(P.pmul(a, a), P.pmul(b, b)), 1, (), d.k)


def mkbool(op, d):
    """condition  d op 0"""
    if not (d.iszero() or d.isconst()) and not P_maycomplex(d):
        t = _twosqrt(d)
        if t is not None:
            return mkbool(op, t)
    if d.iszero():
        return op != '<'
    if d.isconst():
        re, im = d.ccval()
        if op == '==':
            return re == 0 and im == 0
        return re < 0 if op == '<' else re <= 0
    if op == '==':
        if not P_maycomplex(d):
            s = sgn_known(d)
            if s in ('+', '-'):
                return False
        # only the numerator matters
        return SymBool('==', Sym(d.n, 1, (), d.k))
    s = sgn_known(d)
    if s == '+':
        return False
    if s == '-':
        return True
    if s == '0+':
        if op == '<':
            return False
        return SymBool('==', Sym(d.n, 1, (), d.k))
    if s == '0-' and op == '<=':
        return True
    return SymBool(op, d)
