"""numpy stand-in for symbolic execution: arrays of engine.sym.Sym."""
import math
import operator
from fractions import Fraction
import numpy as _np
from . import poly as P
from . import sym as S
from . import funcs as F
from .sym import Sym, SymBool, lift, Unsupported


def _rebuild(shape, flat, k):
    r = _fill(shape, flat)
    r._k = k
    return r


class SymArray(_np.ndarray):
    """object array whose elements are Sym (or python/numpy scalars)"""
    __array_priority__ = 100.0

    def __array_finalize__(self, obj):
        if obj is None:
            self._k = None
        elif self.base is not None and isinstance(obj, SymArray):
            self._k = getattr(obj, '_k', None)
        else:
            self._k = None

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        # as numpy does: operations on 0-d arrays give scalars
        if arr.ndim == 0:
            return arr[()]
        return _np.ndarray.__array_wrap__(self, arr, context)

    # kind of the elements: 'f' or 'c' (numpy's dtype, decided at creation)
    def kind(self):
        if self._k is None:
            k = 'f'
            for x in self.ravel().view(_np.ndarray):
                if isinstance(x, Sym):
                    if x.k == 'c':
                        k = 'c'
                        break
                elif isinstance(x, (complex, _np.complexfloating)):
                    k = 'c'
                    break
                elif not isinstance(x, (int, float, _np.number, SymBool, bool,
                                        Fraction)):
                    k = 'O'
                    break
            self._k = k
        return self._k

    @property
    def real(self):
        return _map(lambda x: lift(x).real if isinstance(lift(x), Sym) else x, self)

    @real.setter
    def real(self, v):
        self[...] = array(v) + S.IU * self.imag

    @property
    def imag(self):
        return _map(lambda x: lift(x).imag if isinstance(lift(x), Sym)
                    else Sym.const(0, 'f'), self)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + S.IU * array(v)

    def conj(self):
        return _map(lambda x: lift(x).conjugate(), self)

    conjugate = conj

    def astype(self, t, *a, **k):
        return array(self, dtype=t)

    def __setitem__(self, key, val):
        if self.dtype == object:
            k = self.kind()
            if k == 'f':
                val = _tofloat(val)
            elif k == 'c' and not isinstance(val, _np.ndarray):
                val = _conv(val, 'c') if _isnum(val) else val
            elif k == 'c' and isinstance(val, _np.ndarray):
                val = _map(lambda x: _conv(x, 'c') if _isnum(x) else x, val)
            if isinstance(val, (list, tuple)):
                val = array(val)
        _np.ndarray.__setitem__(self, key, val)

    def __getitem__(self, key):
        key = _key(key)
        r = _np.ndarray.__getitem__(self, key)
        return r

    def max(self, axis=None, **k):
        return amax(self, axis=axis)

    def min(self, axis=None, **k):
        return amin(self, axis=axis)

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)

    def sum(self, axis=None, **k):
        return sum_(self, axis=axis)

    def mean(self, axis=None, **k):
        return mean(self, axis=axis)

    def prod(self, axis=None, **k):
        return prod(self, axis=axis)

    def dot(self, o):
        return dot(self, o)

    def round(self, nd=0, **k):
        return around(self, nd)

    def any(self, axis=None, **k):
        return _np.array([bool(x) for x in self.ravel()]).reshape(
            self.shape).any(axis=axis)

    def all(self, axis=None, **k):
        return _np.array([bool(x) for x in self.ravel()]).reshape(
            self.shape).all(axis=axis)

    def argsort(self, *a, **k):
        return argsort(self)

    def sort(self, *a, **k):
        i = argsort(self)
        self[...] = self[i]

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def __float__(self):
        if self.size == 1:
            return float(self.ravel()[0])
        raise TypeError('only length-1 arrays can be converted')

    def __complex__(self):
        if self.size == 1:
            return complex(self.ravel()[0])
        raise TypeError('only length-1 arrays can be converted')

    def __int__(self):
        if self.size == 1:
            return int(self.ravel()[0])
        raise TypeError('only length-1 arrays can be converted')

    def __abs__(self):
        return absolute(self)

    def __format__(self, spec):
        if self.shape == ():
            return format(self.item(), spec)
        return _np.ndarray.__format__(self, spec)

    def __str__(self):
        return '<SymArray %r>' % (self.shape,)

    def __repr__(self):
        return '<SymArray %r %s>' % (self.shape, ', '.join(
            S.show(x)[:80] for x in self.ravel()[:6]))

    def __deepcopy__(self, memo):
        import copy
        r = _np.empty(self.shape, dtype=object).view(SymArray)
        rr = r.ravel() if r.size else r
        flat = [copy.deepcopy(x, memo) for x in self.ravel()]
        r = _fill(self.shape, flat)
        r._k = self._k
        return r

    def __copy__(self):
        return self.copy()

    def copy(self, order='C'):
        r = _np.ndarray.copy(self)
        r._k = self._k
        return r

    def __reduce__(self):
        return _rebuild, (tuple(self.shape), list(self.ravel()), self._k)

    def view(self, *a, **k):
        return _np.ndarray.view(self, *a, **k)

    def _inplace(self, o, op):
        r = op(self, o)
        if self.kind() == 'f' and isinstance(r, SymArray) and r.kind() == 'c':
            raise TypeError("Cannot cast ufunc output from dtype('complex128') "
                            "to dtype('float64') with casting rule 'same_kind'")
        if getattr(r, 'shape', ()) != self.shape:
            raise ValueError('non-broadcastable output operand')
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(o, operator.add)

    def __isub__(self, o):
        return self._inplace(o, operator.sub)

    def __imul__(self, o):
        return self._inplace(o, operator.mul)

    def __itruediv__(self, o):
        return self._inplace(o, operator.truediv)

    def __ipow__(self, o):
        return self._inplace(o, operator.pow)

    def __imatmul__(self, o):
        return self._inplace(o, operator.matmul)


def _key(key):
    if isinstance(key, Sym):
        return operator.index(key)
    if isinstance(key, tuple):
        return tuple(_key(k) for k in key)
    if isinstance(key, slice):
        def c(x):
            return operator.index(x) if isinstance(x, Sym) else x
        return slice(c(key.start), c(key.stop), c(key.step))
    if isinstance(key, SymArray):
        if key.size and isinstance(key.ravel()[0], (bool, SymBool, _np.bool_)):
            return _np.array([bool(x) for x in key.ravel()]).reshape(key.shape)
        return _np.array([int(x) for x in key.ravel()], dtype=int).reshape(key.shape)
    return key


def _isnum(x):
    return isinstance(x, (Sym, SymBool, int, float, complex, Fraction, _np.number,
                          _np.bool_))


def _tofloat(val):
    """assignment to a float array"""
    if isinstance(val, Sym):
        if val.k == 'c':
            raise TypeError('float() argument must be a string or a real number, '
                            "not 'complex'")
        return val.withkind('f')
    if isinstance(val, (list, tuple)):
        val = array(val)
    if isinstance(val, _np.ndarray):
        if val.dtype == object:
            def g(x):
                x = lift(x)
                if isinstance(x, Sym) and x.k == 'c':
                    if val.shape == ():
                        raise TypeError('complex to float')
                    return x.real           # ComplexWarning: imaginary part lost
                return x
            if val.shape == ():
                return g(val.item())
            return _map(g, val)
        if val.dtype.kind == 'c':
            return _map(lambda x: lift(x).real, val)
        return _map(lambda x: lift(x), val) if val.dtype.kind in 'fiub' else val
    if isinstance(val, complex):
        raise TypeError('float() argument must be a real number')
    x = lift(val)
    return val if x is None else (x.withkind('f') if isinstance(x, Sym) else x)


def _conv(x, k):
    x = lift(x)
    if not isinstance(x, Sym):
        return x
    if k == 'c':
        return x.withkind('c')
    if k == 'f':
        if x.k == 'c':
            raise TypeError('float() argument must be a string or a real number, '
                            "not 'complex'")
        return x.withkind('f')
    return x


def _fill(shape, flat):
    r = _np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        r[i] = x
    return r.reshape(shape).view(SymArray)


def _map(f, a):
    if isinstance(a, _np.ndarray):
        if a.dtype == object:
            flat = [f(x) for x in a.ravel().view(_np.ndarray)] if a.size else []
        else:
            flat = [f(x) for x in a.ravel().tolist()]
        return _fill(a.shape, flat)
    return f(a)


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, _np.ndarray) and not isinstance(r, SymArray):
        if r.dtype == object:
            return r.view(SymArray)
        if r.dtype.kind in 'fc':
            return _map(lambda x: lift(x), r)
    if isinstance(r, (_np.floating, _np.complexfloating)):
        return lift(r)
    return r


# -------------------------------------------------------------- dtype handling
class _NumMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._py

    def __hash__(cls):
        return hash(cls._py)

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, cls._py)


def _tok(x):
    from . import text
    return text.parse(x)


class float_(metaclass=_NumMeta):
    _py = float
    __name__ = 'float'

    @staticmethod
    def _check(x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.k == 'f') or \
            (isinstance(x, _np.floating))

    @staticmethod
    def _conv(x=0):
        if isinstance(x, str):
            return _tok(x)
        if isinstance(x, _np.ndarray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python '
                                'scalars')
            x = x.ravel()[0]
        y = lift(x)
        if y is None:
            f = getattr(x, '__float__', None)
            if f is None:
                raise TypeError('float() argument must be a string or a real number')
            return lift(f())
        if isinstance(y, Sym):
            if y.k == 'c':
                raise TypeError("float() argument must be a string or a real number,"
                                " not 'complex'")
            return y.withkind('f')
        return y


class complex_(metaclass=_NumMeta):
    _py = complex
    __name__ = 'complex'

    @staticmethod
    def _check(x):
        return isinstance(x, complex) or (isinstance(x, Sym) and x.k == 'c') or \
            isinstance(x, _np.complexfloating)

    @staticmethod
    def _conv(re=0, im=None):
        if isinstance(re, str):
            return lift(complex(re)).withkind('c')
        if isinstance(re, _np.ndarray):
            re = re.ravel()[0] if re.size == 1 else re
        r = lift(re)
        if im is not None:
            r = r + S.IU * lift(im)
        return r.withkind('c')


class int_(metaclass=_NumMeta):
    _py = int
    __name__ = 'int'

    @staticmethod
    def _check(x):
        return isinstance(x, (int, F.LazyCeil)) or (isinstance(x, Sym) and x.k == 'i')

    @staticmethod
    def _conv(x=0, *a):
        if isinstance(x, str):
            return int(x, *a)
        if isinstance(x, _np.ndarray) and x.size == 1:
            x = x.ravel()[0]
        if isinstance(x, F.LazyCeil):
            return x
        return int(x, *a) if a else int(x)


def dkind(t):
    """'f','c','i','b','O','U' or None"""
    if t is None:
        return None
    if t in (float_, float, _np.float64, _np.float32, _np.floating, 'float', 'f8',
             'd', 'float64'):
        return 'f'
    if t in (complex_, complex, _np.complex128, _np.complex64, 'complex', 'c16',
             'complex128', 'D'):
        return 'c'
    if t in (int_, int, _np.int64, _np.int32, 'int', 'i8', 'int64'):
        return 'i'
    if t in (bool, _np.bool_, 'bool'):
        return 'b'
    if t in (object, 'O', 'object'):
        return 'O'
    try:
        k = _np.dtype(t).kind
        return {'u': 'i'}.get(k, k)
    except TypeError:
        return 'O'


def coerce_scalar(x, t):
    k = dkind(t)
    x = lift(x)
    if k == 'c':
        return x.withkind('c')
    if k == 'f':
        return x.real.withkind('f')
    if k == 'i':
        return int(x)
    if k == 'b':
        return bool(x)
    return x


# --------------------------------------------------------------- construction
def _shape_of(a):
    if isinstance(a, _np.ndarray):
        return a.shape
    if isinstance(a, (list, tuple)):
        if len(a) == 0:
            return (0,)
        s0 = _shape_of(a[0])
        for x in a[1:]:
            if _shape_of(x) != s0:
                raise ValueError('setting an array element with a sequence. The '
                                 'requested array has an inhomogeneous shape')
        return (len(a),) + s0
    if isinstance(a, (range, map, zip)):
        return (len(list(a)),)
    return ()


def _leaves(a, out):
    if isinstance(a, _np.ndarray):
        out.extend(a.ravel().view(_np.ndarray).tolist() if a.dtype != object
                   else list(a.ravel().view(_np.ndarray)))
    elif isinstance(a, (list, tuple, range)):
        for x in a:
            _leaves(x, out)
    else:
        out.append(a)
    return out


def array(a=None, dtype=None, copy=True, ndmin=0, order=None, subok=False, **kw):
    k = dkind(dtype)
    if isinstance(a, _np.matrix):
        a = _np.asarray(a)
    if not isinstance(a, (list, tuple, _np.ndarray, range, str, bytes)) and \
            hasattr(a, '__array__') and not isinstance(a, (_np.generic, Sym)):
        a = a.__array__()
    if isinstance(a, (str, bytes)) or a is None:
        return _np.array(a, dtype=object if k == 'O' else None)
    if isinstance(a, (map, zip, set, dict)):
        return _np.array(a, dtype=object)
    shape = _shape_of(a)
    flat = _leaves(a, [])
    num = [x for x in flat if _isnum(x)]
    if len(num) != len(flat):
        if k in ('f', 'c') and any(isinstance(x, str) for x in flat):
            flat = [float_(x) if isinstance(x, str) else x for x in flat]
            if k == 'c':
                flat = [complex_(x) for x in flat]
        elif k in ('f', 'c', 'i'):
            if any(x is None for x in flat) and k == 'f':
                flat = [math.nan if x is None else x for x in flat]
            else:
                raise TypeError('float() argument must be a string or a real number')
        elif any(isinstance(x, Sym) for x in flat) or any(
                not isinstance(x, str) for x in flat):
            return _setnd(_fill(shape, flat), ndmin)
        else:
            return _np.array(a, dtype=None, ndmin=ndmin)
    anyf = any(isinstance(x, (Sym, float, complex, Fraction, _np.floating,
                              _np.complexfloating)) for x in flat)
    if k is None:
        if isinstance(a, _np.ndarray) and a.dtype == object and not flat:
            r = _fill(shape, flat)
            r._k = a._k if isinstance(a, SymArray) else None
            return _setnd(r, ndmin)
        if not flat:
            r = _fill(shape, [])
            return _setnd(r, ndmin)
        if not anyf:
            return _np.array([bool(x) if isinstance(x, SymBool) else x
                              for x in flat]).reshape(shape) if not ndmin else \
                _np.array(_np.array(flat).reshape(shape), ndmin=ndmin)
        if all(isinstance(x, Sym) and x.k == 'i' or
               isinstance(x, (int, _np.integer)) for x in flat) and \
                all(not isinstance(x, Sym) or x.isreal_const() for x in flat):
            return _np.array([int(x) for x in flat]).reshape(shape)
        k2 = 'c' if any((isinstance(x, Sym) and x.k == 'c') or
                        isinstance(x, (complex, _np.complexfloating))
                        for x in flat) else 'f'
        r = _fill(shape, [_conv(x, k2) for x in flat])
        r._k = k2
        return _setnd(r, ndmin)
    if k in ('f', 'c'):
        if k == 'f':
            src = a if isinstance(a, _np.ndarray) else None
            if src is not None:       # ComplexWarning: the imaginary part is lost
                flat = [lift(x).real if isinstance(lift(x), Sym) else x
                        for x in flat]
        r = _fill(shape, [_conv(x, k) for x in flat])
        r._k = k
        return _setnd(r, ndmin)
    if k == 'i':
        return _np.array([int(x) for x in flat], dtype=int).reshape(shape)
    if k == 'b':
        return _np.array([bool(x) for x in flat], dtype=bool).reshape(shape)
    return _setnd(_fill(shape, flat), ndmin)


def _setnd(r, ndmin):
    while r.ndim < ndmin:
        r = r[None, ...]
    return r


def asarray(a, dtype=None, **k):
    if isinstance(a, SymArray) and dtype is None:
        return a
    if isinstance(a, SymArray) and dkind(dtype) == a.kind():
        return a
    if isinstance(a, _np.ndarray) and a.dtype != object and a.dtype.kind in 'ibU' \
            and dtype is None:
        return a
    return array(a, dtype=dtype)


def _shp(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(int(s) for s in shape)
    return (int(shape),)


def _filled(shape, v, dtype):
    k = dkind(dtype) or 'f'
    shape = _shp(shape)
    if k in ('i', 'b', 'U'):
        return _np.full(shape, v, dtype={'i': int, 'b': bool}.get(k, None))
    n = 1
    for s in shape:
        n *= s
    x = lift(v)
    if k == 'O':
        x = v
    elif isinstance(x, Sym):
        x = x.withkind(k)
    r = _fill(shape, [x] * n)
    r._k = k
    return r


def zeros(shape, dtype=None, order='C', **k):
    return _filled(shape, 0, dtype)


def ones(shape, dtype=None, order='C', **k):
    return _filled(shape, 1, dtype)


def empty(shape, dtype=None, order='C', **k):
    # contents are arbitrary: poisoned so that reading them is noticed
    kk = dkind(dtype) or 'f'
    if kk in ('i', 'b', 'U', 'O'):
        return _np.empty(_shp(shape), dtype={'i': int, 'b': bool}.get(kk, object))
    r = _filled(shape, 0, dtype)
    if not k.get('_z'):
        fl = r.view(_np.ndarray)
        t = S.T()
        for idx in _np.ndindex(*r.shape):
            v = t.new('uninitialised', 'real')
            v.inp = False
            v.ev = lambda env: complex(0.123456789)
            fl[idx] = Sym(P.pvar(v.idx), 1, (), kk)
    return r


def full(shape, v, dtype=None, **k):
    if dtype is None:
        x = lift(v) if _isnum(v) else v
        kd = x.k if isinstance(x, Sym) else ('f' if isinstance(x, float) else 'O')
        dtype = {'f': float, 'c': complex, 'i': int}.get(kd, object)
    return _filled(shape, v, dtype)


def _kindof(a):
    a = asarray(a)
    if isinstance(a, SymArray):
        return {'f': float, 'c': complex}.get(a.kind(), object)
    return a.dtype


def zeros_like(a, dtype=None, **k):
    return zeros(_np.shape(a), dtype or _kindof(a))


def ones_like(a, dtype=None, **k):
    return ones(_np.shape(a), dtype or _kindof(a))


def empty_like(a, dtype=None, **k):
    return empty(_np.shape(a), dtype or _kindof(a))


def full_like(a, v, dtype=None, **k):
    return full(_np.shape(a), v, dtype or _kindof(a))


def eye(n, m=None, k=0, dtype=None, **kw):
    n = int(n)
    m = n if m is None else int(m)
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(a, k=0):
    a = asarray(a)
    if a.ndim == 1 and isinstance(a, SymArray):
        n = len(a) + abs(k)
        r = zeros((n, n), complex if a.kind() == 'c' else float)
        for i in range(len(a)):
            r[i + max(0, -k), i + max(0, k)] = a[i]
        return r
    return wrap(_np.diag(a, k))


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, **k):
    a, b = lift(a), lift(b)
    num = int(num)
    div = (num - 1) if endpoint else num
    step = (b - a) / div if div > 0 else Sym.const(0, 'f')
    fl = [(a + step * i).withkind(S._kmax('f', a.k)) for i in range(num)]
    if endpoint and num > 1:
        fl[-1] = b.withkind(S._kmax('f', b.k))
    r = _fill((num,), fl)
    r._k = 'c' if 'c' in (a.k, b.k) else 'f'
    return (r, step) if retstep else r


def arange(*a, dtype=None, **k):
    if all(isinstance(x, (int, _np.integer)) for x in a) and dkind(dtype) in (None,
                                                                            'i'):
        return _np.arange(*a)
    a = [lift(x) for x in a]
    lo, hi, st = (ZEROS(), a[0], S.ONE) if len(a) == 1 else \
        (a[0], a[1], S.ONE) if len(a) == 2 else a
    n = int(F.ceil((hi - lo) / st))
    r = _fill((max(n, 0),), [lo + st * i for i in range(n)])
    return array(r, dtype=dtype or float)


def ZEROS():
    return Sym.const(0, 'f')


# ----------------------------------------------------------------- elementwise
def _ew(f):
    def g(a, *rest, out=None, where=True, **k):
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(a, _np.ndarray) and a.shape == ():
            a = a.item()
        r = _map(f, a)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _npdiv0(x):
    return x


exp = _ew(F.exp)
sqrt = _ew(F.sqrt)
log = _ew(F.log)
log10 = _ew(F.log10)
log2 = _ew(lambda x: F.log(x) / F.log(Sym.const(2, 'f')))
log1p = _ew(lambda x: F.log(1 + lift(x)))
expm1 = _ew(lambda x: F.exp(x) - 1)
cos = _ew(F.cos)
sin = _ew(F.sin)
tan = _ew(F.tan)
cosh = _ew(F.cosh)
sinh = _ew(F.sinh)
tanh = _ew(F.tanh)
arctan = _ew(F.arctan)
arcsin = _ew(F.arcsin)
arccos = _ew(F.arccos)
floor = _ew(F.floor)
_ceil = _ew(F.ceil)


def ceil(a, *r, **k):
    if isinstance(a, Sym) and not r and not k and a.k != 'c' and not a.isreal_const():
        return F.LazyCeil(a)
    return _ceil(a, *r, **k)
trunc = _ew(lambda x: Sym.const(Fraction(int(lift(x))), 'f'))
rint = _ew(lambda x: Sym.const(Fraction(F.rounded(lift(x))), 'f'))
square = _ew(lambda x: lift(x) * lift(x))
reciprocal = _ew(lambda x: 1 / lift(x))
negative = _ew(lambda x: -lift(x))


def absolute(a, *r, **k):
    if isinstance(a, _np.ndarray) and a.dtype.kind in 'iub':
        return _np.abs(a)
    return _ew(F.absolute)(a)


def real(a):
    if isinstance(a, (list, tuple)):
        a = array(a)
    return _map(lambda x: lift(x).real, a) if not (
        isinstance(a, _np.ndarray) and a.dtype.kind in 'iub') else a


def imag(a):
    if isinstance(a, (list, tuple)):
        a = array(a)
    return _map(lambda x: lift(x).imag, a)


def conj(a, **k):
    if isinstance(a, (list, tuple)):
        a = array(a)
    return _map(lambda x: lift(x).conjugate(), a)


def angle(a, deg=False):
    r = _ew(F.angle)(a)
    if deg:
        r = r * 180 / F.pi()
    return r


def sign(a, **k):
    def f(x):
        x = lift(x)
        if x.k == 'c':
            raise Unsupported('sign of complex')
        if bool(x > 0):
            return Sym.const(1, 'f')
        if bool(x < 0):
            return Sym.const(-1, 'f')
        return Sym.const(0, 'f')
    return _ew(f)(a)


def heaviside(a, h):
    return _ew(lambda x: Sym.const(1, 'f') if bool(lift(x) > 0) else
               (Sym.const(0, 'f') if bool(lift(x) < 0) else lift(h)))(a)


def around(a, decimals=0, **k):
    return _ew(lambda x: round(lift(x), decimals))(a)


def _bin(f):
    def g(a, b, *r, **k):
        a = array(a) if isinstance(a, (list, tuple)) else a
        b = array(b) if isinstance(b, (list, tuple)) else b
        if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
            A, B = _np.broadcast_arrays(_obj(a), _obj(b))
            return _fill(A.shape, [f(x, y) for x, y in zip(A.ravel(), B.ravel())])
        return f(a, b)
    return g


def _obj(a):
    if isinstance(a, _np.ndarray):
        return a.view(_np.ndarray) if a.dtype == object else a.astype(object)
    r = _np.empty((), dtype=object)
    r[()] = a
    return r


def _b(x):
    return bool(x)


add = _bin(lambda x, y: lift(x) + lift(y))
subtract = _bin(lambda x, y: lift(x) - lift(y))
multiply = _bin(lambda x, y: lift(x) * lift(y))
divide = _bin(lambda x, y: lift(x) / lift(y))
power = _bin(lambda x, y: lift(x) ** lift(y))
maximum = _bin(lambda x, y: x if _b(lift(x) >= lift(y)) else y)
minimum = _bin(lambda x, y: x if _b(lift(x) <= lift(y)) else y)
arctan2 = _bin(F.arctan2)
hypot = _bin(lambda x, y: F.sqrt(lift(x) ** 2 + lift(y) ** 2))
mod = _bin(lambda x, y: lift(x) % lift(y))
remainder = mod


def _boolarr(f):
    def g(a, b, *r, **k):
        x = _bin(f)(a, b)
        if isinstance(x, _np.ndarray):
            return _np.array([bool(v) for v in x.ravel()], dtype=bool).reshape(x.shape)
        return bool(x)
    return g


equal = _boolarr(lambda x, y: lift(x) == lift(y))
not_equal = _boolarr(lambda x, y: lift(x) != lift(y))
less = _boolarr(lambda x, y: lift(x) < lift(y))
less_equal = _boolarr(lambda x, y: lift(x) <= lift(y))
greater = _boolarr(lambda x, y: lift(x) > lift(y))
greater_equal = _boolarr(lambda x, y: lift(x) >= lift(y))
logical_and = _boolarr(lambda x, y: bool(x) and bool(y))
logical_or = _boolarr(lambda x, y: bool(x) or bool(y))


def logical_not(a):
    a = asarray(a)
    return _np.array([not bool(v) for v in a.ravel()], dtype=bool).reshape(a.shape)


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def nan_to_num(a, *r, **k):
    return _ew(lambda x: x if isinstance(lift(x), Sym) else
               (Sym.const(0, 'f') if x != x else _unsup('nan_to_num')))(a)


def _unsup(s):
    raise Unsupported(s)


def isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), **k):
    def f(x, y):
        x, y = lift(x), lift(y)
        d = x - y
        if isinstance(d, Sym) and d.iszero():
            return True
        return bool(F.absolute(d) <= lift(atol) + lift(rtol) * F.absolute(y))
    r = _bin(f)(a, b)
    if isinstance(r, _np.ndarray):
        return _np.array([bool(v) for v in r.ravel()], dtype=bool).reshape(r.shape)
    return r


def allclose(a, b, *x, **k):
    return bool(_np.all(isclose(a, b, *x, **k)))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def isnan(a):
    return _ewbool(lambda x: x != x if isinstance(x, float) else False)(a)


def isinf(a):
    return _ewbool(lambda x: isinstance(x, float) and math.isinf(x))(a)


def isfinite(a):
    return _ewbool(lambda x: not isinstance(x, float) or math.isfinite(x))(a)


def isreal(a):
    return _ewbool(lambda x: bool(lift(x).imag == 0))(a)


def iscomplex(a):
    return _ewbool(lambda x: not bool(lift(x).imag == 0))(a)


def _ewbool(f):
    def g(a):
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(a, _np.ndarray):
            return _np.array([bool(f(x)) for x in a.ravel()],
                             dtype=bool).reshape(a.shape)
        return bool(f(a))
    return g


def iscomplexobj(a):
    if isinstance(a, Sym):
        return a.k == 'c'
    a = asarray(a)
    return a.kind() == 'c' if isinstance(a, SymArray) else _np.iscomplexobj(a)


def isrealobj(a):
    return not iscomplexobj(a)


def isscalar(a):
    return isinstance(a, Sym) or _np.isscalar(a)


# ------------------------------------------------------------------ reductions
def _axes(f):
    def g(a, axis=None, out=None, keepdims=False, **k):
        a = asarray(a)
        if axis is None:
            return f(list(a.ravel()))
        ax = axis % a.ndim
        b = _np.moveaxis(a, ax, -1)
        sh = b.shape[:-1]
        r = [f(list(b[i])) for i in _np.ndindex(*sh)]
        rr = _fill(sh, r)
        if keepdims:
            rr = _np.expand_dims(rr, ax)
        return rr
    return g


def _max(l):
    if not l:
        raise ValueError('zero-size array to reduction operation maximum which has '
                         'no identity')
    l = [lift(x) for x in l]
    l = _decomplex(l)
    return l[_argbest(l, False)]


def _decomplex(l):
    if any(isinstance(x, Sym) and x.k == 'c' for x in l):
        out = []
        for x in l:
            if isinstance(x, Sym) and x.k == 'c' and S.P_maycomplex(x):
                if len(l) == 1:
                    return l
                raise Unsupported('ordering of complex numbers')
            out.append(x.asreal())
        return out
    return l


def _min(l):
    if not l:
        raise ValueError('zero-size array to reduction operation minimum which has '
                         'no identity')
    l = [lift(x) for x in l]
    l = _decomplex(l)
    return l[_argbest(l, True)]


def _argbest(l, low):
    best = 0
    for i in range(1, len(l)):
        c = (l[i] < l[best]) if low else (l[i] > l[best])
        if bool(c):
            best = i
    return best


amax = _axes(_max)
amin = _axes(_min)


def argmax(a, axis=None, **k):
    if axis is not None:
        r = _axes(lambda l: _argbest([lift(x) for x in l], False))(a, axis)
        return r.astype(int)
    return _argbest([lift(x) for x in asarray(a).ravel()], False)


def argmin(a, axis=None, **k):
    if axis is not None:
        return _axes(lambda l: _argbest([lift(x) for x in l], True))(a, axis).astype(int)
    return _argbest([lift(x) for x in asarray(a).ravel()], True)


def _s(l):
    t = Sym.const(0, 'i')
    if not l:
        return Sym.const(0, 'f')
    for x in l:
        t = t + lift(x)
    return t


def sum_(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.sum(a, axis=axis)
    return _axes(_s)(a, axis)


def _p(l):
    t = Sym.const(1, 'i')
    for x in l:
        t = t * lift(x)
    return t


def prod(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.prod(a, axis=axis)
    return _axes(_p)(a, axis)


def mean(a, axis=None, **k):
    return _axes(lambda l: _s(l) / len(l))(a, axis)


average = mean


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.cumsum(a, axis=axis)
    if axis is None:
        a = a.ravel()
        axis = 0
    return wrap(_np.cumsum(a.view(_np.ndarray), axis=axis))


def any_(a, axis=None, **k):
    return logical_not(logical_not(a)).any(axis=axis)


def all_(a, axis=None, **k):
    return logical_not(logical_not(a)).all(axis=axis)


def count_nonzero(a, **k):
    return int(logical_not(logical_not(a)).sum())


def where(c, *ab):
    if isinstance(c, (SymBool,)):
        c = bool(c)
    c = asarray(c)
    c = _np.array([bool(x) for x in c.ravel()], dtype=bool).reshape(c.shape)
    if not ab:
        return _np.where(c)
    a, b = [x if isinstance(x, _np.ndarray) else array(x) for x in ab]
    if a.dtype != object and b.dtype != object:
        return _np.where(c, a, b)
    C, A, B = _np.broadcast_arrays(c, _obj(a), _obj(b))
    return _fill(C.shape, [x if t else y for t, x, y in
                           zip(C.ravel(), A.ravel(), B.ravel())])


def nonzero(a):
    return where(a)


def flatnonzero(a):
    return where(asarray(a).ravel())[0]


def argwhere(a):
    return _np.transpose(_np.array(where(a)))


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.diff(a, n, axis)
    for _ in range(n):
        b = _np.moveaxis(a, axis, -1)
        r = b[..., 1:] - b[..., :-1]
        a = _np.moveaxis(r, -1, axis)
    return wrap(a)


def argsort(a, axis=-1, **k):
    import functools
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    if not isinstance(a, SymArray):
        return _np.argsort(a, kind='stable')

    def cmp(i, j):
        if bool(a[i] < a[j]):
            return -1
        if bool(a[j] < a[i]):
            return 1
        return 0
    return _np.array(sorted(range(len(a)), key=functools.cmp_to_key(cmp)), dtype=int)


def sort(a, axis=-1, **k):
    a = asarray(a)
    return a[argsort(a)]


def unique(a, return_index=False, return_inverse=False, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        return _np.unique(a, return_index=return_index,
                          return_inverse=return_inverse, **k)
    fl = a.ravel()
    o = argsort(fl)
    keep, inv, prev = [], [0] * len(fl), None
    for i in o:
        if prev is None or not bool(fl[i] == fl[prev]):
            keep.append(i)
            prev = i
        inv[i] = len(keep) - 1
    out = [fl[_np.array(keep, dtype=int)]]
    if return_index:
        out.append(_np.array(keep))
    if return_inverse:
        out.append(_np.array(inv))
    return tuple(out) if len(out) > 1 else out[0]


def searchsorted(a, v, side='left', sorter=None):
    a = asarray(a)

    def one(x):
        n = 0
        for y in a.ravel():
            c = (lift(y) < lift(x)) if side == 'left' else (lift(y) <= lift(x))
            if not bool(c):
                break
            n += 1
        return n
    if isinstance(v, (_np.ndarray, list, tuple)):
        return _np.array([one(x) for x in asarray(v).ravel()], dtype=int)
    return one(v)


def unwrap(a, discont=None, axis=-1, period=None):
    if discont is not None or period is not None:
        raise Unsupported('unwrap with options')
    a = asarray(a)
    if a.size == 0:
        return a
    b = _np.moveaxis(a, axis, -1).copy()
    p = F.pi()
    for i in _np.ndindex(*b.shape[:-1]):
        corr = Sym.const(0, 'f')
        row = list(b[i])
        for j in range(1, len(row)):
            d = lift(row[j]) - lift(row[j - 1])
            # the phases are in (-pi, pi]
            if bool(d > p):
                corr = corr - 2 * p
            elif bool(d < -p):
                corr = corr + 2 * p
            b[i + (j,)] = lift(row[j]) + corr
    return wrap(_np.moveaxis(b, -1, axis))


def polyfit(x, y, deg, **k):
    x, y = list(asarray(x)), list(asarray(y))
    deg = int(deg)
    if len(x) == deg + 1:
        V = _fill((deg + 1, deg + 1), [lift(xi) ** (deg - j) for xi in x
                                       for j in range(deg + 1)])
        return linalg.solve(V, _fill((deg + 1,), [lift(v) for v in y]))
    # least squares by the normal equations
    V = _fill((len(x), deg + 1), [lift(xi) ** (deg - j) for xi in x
                                  for j in range(deg + 1)])
    return linalg.solve(V.T @ V, V.T @ _fill((len(y),), [lift(v) for v in y]))


def polyval(p, x):
    r = Sym.const(0, 'f')
    x = asarray(x) if isinstance(x, (list, tuple)) else x
    for c in asarray(p):
        r = r * x + c
    return r


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(asarray(xp)), list(asarray(fp))

    def one(v):
        v = lift(v)
        if bool(v <= xp[0]):
            return fp[0] if left is None or bool(v == xp[0]) else lift(left)
        if bool(v >= xp[-1]):
            return fp[-1] if right is None or bool(v == xp[-1]) else lift(right)
        for j in range(1, len(xp)):
            if bool(v <= xp[j]):
                t = (v - xp[j - 1]) / (lift(xp[j]) - xp[j - 1])
                return fp[j - 1] + t * (lift(fp[j]) - fp[j - 1])
    if isinstance(x, (_np.ndarray, list, tuple)):
        return _map(one, asarray(x))
    return one(x)


def trapz(y, x=None, dx=1, axis=-1):
    y = list(asarray(y))
    t = Sym.const(0, 'f')
    for i in range(len(y) - 1):
        h = lift(x[i + 1]) - lift(x[i]) if x is not None else lift(dx)
        t = t + h * (lift(y[i]) + lift(y[i + 1])) / 2
    return t


# ------------------------------------------------------------------- products
def dot(a, b, **k):
    a, b = _num(a), _num(b)
    if not isinstance(a, _np.ndarray) or not isinstance(b, _np.ndarray):
        return a * b
    return wrap(_np.dot(_obj(a), _obj(b)))


def _num(a):
    return array(a) if isinstance(a, (list, tuple)) else (
        a if isinstance(a, _np.ndarray) else lift(a))


def matmul(a, b, **k):
    return wrap(_np.matmul(_obj(_num(a)), _obj(_num(b))))


def _viaobj(name):
    fn = getattr(_np, name)

    def g(*a, **k):
        aa = []
        for x in a:
            if isinstance(x, (list, tuple)) and x and not isinstance(x[0], int):
                x = array(x)
            aa.append(_obj(x) if isinstance(x, _np.ndarray) and
                      x.dtype.kind in 'Ofc' else x)
        return wrap(fn(*aa, **k))
    return g


def vdot(a, b):
    return dot(conj(asarray(a)).ravel(), asarray(b).ravel())


def _stack(name):
    fn = getattr(_np, name)

    def g(tup, *a, **k):
        tup = [x if isinstance(x, _np.ndarray) else array(x) for x in tup]
        if any(x.dtype == object for x in tup):
            tup = [x if isinstance(x, SymArray) else _map(lift, x) if
                   x.dtype.kind in 'iufcb' else x.view(SymArray) for x in tup]
        k.pop('dtype', None)
        return _rekind(wrap(fn(tup, *a, **k)), tup)
    return g


def _rekind(r, tup):
    if isinstance(r, SymArray):
        ks = [x.kind() for x in tup if isinstance(x, SymArray)]
        r._k = 'O' if 'O' in ks else 'c' if 'c' in ks else 'f'
        if r._k == 'c':
            r2 = _map(lambda x: _conv(x, 'c') if _isnum(x) else x, r)
            r2._k = 'c'
            return r2
    return r


concatenate = _stack('concatenate')
vstack = _stack('vstack')
hstack = _stack('hstack')
dstack = _stack('dstack')
stack = _stack('stack')
column_stack = _stack('column_stack')
row_stack = vstack


def append(a, b, axis=None):
    a, b = asarray(a), asarray(b)
    if axis is None:
        a, b = a.ravel(), b.ravel()
        axis = 0
    return concatenate((a, b), axis)


def insert(a, i, v, axis=None):
    a = asarray(a)
    if isinstance(a, SymArray) or isinstance(asarray(v), SymArray):
        a = a if isinstance(a, SymArray) else _map(lift, a)
        v = asarray(v)
    return wrap(_np.insert(a.view(_np.ndarray) if isinstance(a, SymArray) else a, i,
                           _obj(v), axis=axis))


def block(l):
    def conv(x):
        if isinstance(x, list):
            return [conv(y) for y in x]
        x = asarray(x)
        return _obj(x if isinstance(x, SymArray) else _map(lift, x))
    return wrap(_np.block(conv(l)))


class _Matrix:
    def __new__(cls, *a, **k):
        _unsup("np.matrix")


class _RClass:
    def __init__(self, ax):
        self.ax = ax

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                st, sp, step = k.start, k.stop, k.step
                st = 0 if st is None else st
                if isinstance(step, complex) or (isinstance(step, Sym) and
                                                 step.k == 'c'):
                    n = int(abs(lift(step).imag.cval()))
                    parts.append(linspace(st, sp, n))
                else:
                    parts.append(arange(st, sp, 1 if step is None else step))
            elif isinstance(k, str):
                raise Unsupported('r_ directive')
            else:
                a = asarray(k)
                if a.ndim == 0:
                    a = a.reshape(1)
                parts.append(a)
        if self.ax == 1:
            parts = [p.reshape(-1, 1) if p.ndim == 1 else p for p in parts]
            return concatenate(parts, axis=1)
        return concatenate(parts, axis=0)


# -------------------------------------------------------------- linear algebra
class LinAlgError(_np.linalg.LinAlgError):
    pass


class linalg:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def _ss(f):
        def g(A, *B, **k):
            A = asarray(A)
            if not isinstance(A, SymArray):
                A = _map(lift, A)
            return f(A, *B, **k)
        return g

    @staticmethod
    def inv(A):
        A = _symarr(A)
        if A.ndim == 3:
            return stack([linalg.inv(a) for a in A]) if len(A) else A.copy()
        if A.ndim != 2 or A.shape[0] != A.shape[1]:
            raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                         'square')
        n = A.shape[0]
        I = [[Sym.const(1 if i == j else 0, 'f') for j in range(n)]
             for i in range(n)]
        X = _lin_solve([list(r) for r in A], I)
        k = 'c' if A.kind() == 'c' else 'f'
        r = _fill((n, n), [x.withkind(k) for row in X for x in row])
        r._k = k
        return r

    @staticmethod
    def solve(A, B):
        A, B = _symarr(A), _symarr(B)
        if A.ndim == 3:
            return stack([linalg.solve(a, b) for a, b in zip(A, B)])
        n = A.shape[0]
        if A.ndim != 2 or A.shape[1] != n:
            raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                         'square')
        if B.shape[0] != n:
            raise ValueError('solve: mismatch in core dimension')
        one = B.ndim == 1
        BB = B.reshape(n, -1)
        X = _lin_solve([list(r) for r in A], [list(r) for r in BB])
        k = 'c' if 'c' in (A.kind(), B.kind()) else 'f'
        r = _fill((n, BB.shape[1]), [x.withkind(k) for row in X for x in row])
        r._k = k
        return r[:, 0] if one else r

    @staticmethod
    def lstsq(A, B, rcond=None, **k):
        A = _symarr(A)
        if A.shape[0] != A.shape[1]:
            return linalg.pinv(A) @ _symarr(B), None, min(A.shape), None
        return linalg.solve(A, B), None, A.shape[0], None

    @staticmethod
    def pinv(A, *a, **k):
        # of full rank (as for inv: the matrix inverted is assumed not singular)
        A = _symarr(A)
        if A.ndim != 2:
            raise Unsupported('pinv of a stack')
        Ah = A.conj().T
        if A.shape[0] < A.shape[1]:
            return Ah @ linalg.inv(A @ Ah)
        if A.shape[0] > A.shape[1]:
            return linalg.inv(Ah @ A) @ Ah
        return linalg.inv(A)

    @staticmethod
    def det(A):
        A = _symarr(A)
        if A.ndim == 3:
            return array([linalg.det(a) for a in A])
        return _det([list(r) for r in A])

    @staticmethod
    def norm(a, ord=None, axis=None, **k):
        a = asarray(a)
        if ord is not None and ord != 2 or axis is not None:
            raise Unsupported('norm with options')
        return F.sqrt(sum_(absolute(a) ** 2))

    @staticmethod
    def matrix_power(A, n):
        R = eye(len(A))
        for _ in range(abs(n)):
            R = R @ A
        return R if n >= 0 else linalg.inv(R)

    @staticmethod
    def multi_dot(l):
        r = l[0]
        for x in l[1:]:
            r = matmul(r, x)
        return r

    @staticmethod
    def matrix_rank(A, *a, **k):
        raise Unsupported('matrix_rank')

    @staticmethod
    def cond(A, *a, **k):
        raise Unsupported('cond')

    @staticmethod
    def eig(A):
        raise Unsupported('eig')

    @staticmethod
    def svd(A, *a, **k):
        raise Unsupported('svd')

    @staticmethod
    def eigvals(A):
        raise Unsupported('eigvals')


def _symarr(A):
    A = asarray(A)
    if not isinstance(A, SymArray):
        A = _map(lift, A)
    for x in A.ravel():
        if not isinstance(lift(x), Sym):
            raise Unsupported('linear algebra with non finite numbers')
    return _map(lift, A)


def _lin_solve(A, B):
    """exact solution of A X = B.  Eliminates with constant pivots first
    (Markowitz order), the dense symbolic core by Cramer's rule.  The
    determinant is assumed to be non zero (recorded)."""
    n = len(A)
    if n == 0:
        return []
    m = len(B[0]) if B else 0
    rows = list(range(n))
    cols = list(range(n))
    A = [list(map(lift, r)) for r in A]
    B = [list(map(lift, r)) for r in B]
    order = []
    while rows:
        best = None
        cnt = {j: sum(1 for i in rows if A[i][j].n) for j in cols}
        for i in rows:
            ri = sum(1 for j in cols if A[i][j].n)
            for j in cols:
                a = A[i][j]
                if a.n and a.isconst():
                    cost = (ri - 1) * (cnt[j] - 1)
                    if best is None or cost < best[0]:
                        best = (cost, i, j)
        if best is None:
            break
        _, p, q = best
        piv = A[p][q]
        order.append((p, q))
        rows.remove(p)
        cols.remove(q)
        inv = piv.inv()
        for i in rows:
            f = A[i][q]
            if not f.n:
                continue
            f = f * inv
            for j in cols:
                if A[p][j].n:
                    A[i][j] = A[i][j] - f * A[p][j]
            for j in range(m):
                if B[p][j].n:
                    B[i][j] = B[i][j] - f * B[p][j]
            A[i][q] = Sym.const(0, 'f')
    X = [None] * n
    if rows:
        k = len(rows)
        C = [[A[i][j] for j in cols] for i in rows]
        adj, det = _adjugate(C)
        if det.iszero():
            raise _np.linalg.LinAlgError('Singular matrix')
        if S.CTX is not None:
            S.CTX.note_div(det)
        for jj, j in enumerate(cols):
            X[j] = []
            for c in range(m):
                t = Sym.const(0, 'f')
                for ii, i in enumerate(rows):
                    if B[i][c].n and adj[jj][ii].n:
                        t = t + adj[jj][ii] * B[i][c]
                X[j].append(t / det)
    for p, q in reversed(order):
        inv = A[p][q].inv()
        X[q] = []
        for c in range(m):
            t = B[p][c]
            for j in range(n):
                if j != q and A[p][j].n and X[j] is not None:
                    if X[j][c].n:
                        t = t - A[p][j] * X[j][c]
            X[q].append(t * inv)
    return X


def _det(C):
    n = len(C)
    if n == 0:
        return Sym.const(1, 'f')
    return _minors(C)[(1 << n) - 1]


def _minors(C):
    """determinants of the first popcount rows on column subsets"""
    n = len(C)
    D = {0: Sym.const(1, 'f')}
    for mask in range(1, 1 << n):
        r = bin(mask).count('1') - 1
        t = Sym.const(0, 'f')
        sg = 1
        cols = [j for j in range(n) if mask >> j & 1]
        for idx, j in enumerate(cols):
            a = lift(C[r][j])
            if a.n:
                d = D[mask ^ (1 << j)]
                if d.n:
                    term = a * d
                    # sign: cofactor along the last row
                    if (r + idx) % 2:
                        term = -term
                    t = t + term
        D[mask] = t
    return D


def _adjugate(C):
    n = len(C)
    if n == 1:
        return [[Sym.const(1, 'f')]], C[0][0]
    adj = [[None] * n for _ in range(n)]
    det = None
    for i in range(n):
        R = [C[r] for r in range(n) if r != i]
        D = _minors(R) if n > 1 else None
        for j in range(n):
            # minor without column j: map onto the subset of columns
            mask = ((1 << n) - 1) ^ (1 << j)
            v = _sub(D, R, mask, n)
            adj[j][i] = v if (i + j) % 2 == 0 else -v
        if i == 0:
            det = Sym.const(0, 'f')
            for j in range(n):
                if C[0][j].n:
                    det = det + C[0][j] * adj[j][0]
    return adj, det


def _sub(D, R, mask, n):
    return _minors_rect(R, n)[mask]


_cache = {}


def _minors_rect(R, n):
    key = tuple(id(x) for r in R for x in r)
    hit = _cache.get('k')
    if hit is not None and hit[0] == key:
        return hit[1]
    m = len(R)
    D = {0: Sym.const(1, 'f')}
    masks = sorted((x for x in range(1, 1 << n) if bin(x).count('1') <= m),
                   key=lambda x: bin(x).count('1'))
    for mask in masks:
        r = bin(mask).count('1') - 1
        t = Sym.const(0, 'f')
        cols = [j for j in range(n) if mask >> j & 1]
        for idx, j in enumerate(cols):
            a = lift(R[r][j])
            if a.n:
                d = D[mask ^ (1 << j)]
                if d.n:
                    term = a * d
                    if (r + idx) % 2:
                        term = -term
                    t = t + term
        D[mask] = t
    _cache['k'] = (key, D, R)
    return D


def cross(a, b):
    raise Unsupported('cross')


# --------------------------------------------------------------- the namespace
class _Ctxmgr:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class NumpyShim:
    ndarray = _np.ndarray
    newaxis = None
    inf = math.inf
    Inf = math.inf
    nan = math.nan
    NaN = math.nan
    errstate = _Ctxmgr
    printoptions = _Ctxmgr
    float64 = float_
    floating = float_
    complex128 = complex_
    complexfloating = complex_
    int64 = int_
    int32 = int_
    bool_ = _np.bool_
    integer = _np.integer
    generic = _np.generic
    object_ = object

    def __init__(self):
        self.linalg = linalg
        self.r_ = _RClass(0)
        self.c_ = _RClass(1)
        g = globals()
        for n in ('array asarray zeros ones empty full zeros_like ones_like '
                  'empty_like full_like eye identity diag linspace arange exp sqrt '
                  'log log10 log2 log1p expm1 cos sin tan cosh sinh tanh arctan '
                  'arcsin arccos floor ceil trunc rint square reciprocal negative '
                  'absolute real imag conj angle sign heaviside around add subtract '
                  'multiply divide power maximum minimum arctan2 hypot mod remainder '
                  'equal not_equal less less_equal greater greater_equal logical_and '
                  'logical_or logical_not clip nan_to_num isclose allclose '
                  'array_equal isnan isinf isfinite isreal iscomplex iscomplexobj '
                  'isrealobj isscalar amax amin argmax argmin prod mean average '
                  'cumsum count_nonzero where nonzero flatnonzero argwhere diff '
                  'argsort sort unique searchsorted unwrap polyfit polyval interp '
                  'dot matmul vdot concatenate vstack hstack dstack stack '
                  'column_stack row_stack append insert block').split():
            setattr(self, n, g[n])
        self.abs = absolute
        self.conjugate = conj
        self.max = amax
        self.min = amin
        self.sum = sum_
        self.any = any_
        self.all = all_
        self.round = around
        self.round_ = around
        self.asanyarray = self.ascontiguousarray = self.asfarray = asarray
        self.true_divide = divide
        self.trapz = self.trapezoid = trapz
        self.arcsinh = self.arccosh = self.arctanh = lambda *a: _unsup('arc hyperbolic')
        self.deg2rad = self.radians = lambda x: _num(x) * F.pi() / 180
        self.rad2deg = self.degrees = lambda x: _num(x) * 180 / F.pi()
        self.matrix = _Matrix

    @property
    def pi(self):
        return F.pi()

    @property
    def e(self):
        return F.exp(S.ONE)

    def copy(self, a, **k):
        return asarray(a).copy()

    def fill_diagonal(self, a, v):
        for i in range(min(a.shape)):
            a[i, i] = v[i] if isinstance(v, (list, tuple, _np.ndarray)) and \
                _np.ndim(v) else v

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if not hasattr(_np, name):
            # e.g. np.complex, np.Inf: removed from this numpy version
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        fn = getattr(_np, name)
        if name in ('set_printoptions', 'seterr', 'array2string', 'ndim', 'shape',
                    'size', 'ndindex', 'ndenumerate', 'dtype', 'random', 'load',
                    'savetxt', 'loadtxt', 'save', 'array_repr', 'array_str',
                    'iterable', 'exceptions', 'testing', 'version', 'str_',
                    'uint8', 'int8', 'int16', 'intp'):
            return fn
        if isinstance(fn, type):
            return fn
        if not callable(fn):
            return fn
        # structural functions work on object arrays
        return _viaobj(name)


np = NumpyShim()


class MathShim:
    """math / cmath"""
    inf = math.inf
    nan = math.nan

    def __init__(self, cplx=False):
        self.cplx = cplx

    @property
    def pi(self):
        return F.pi()

    @property
    def e(self):
        return F.exp(S.ONE)

    def __getattr__(self, n):
        tab = dict(sqrt=F.sqrt, exp=F.exp, log=F.log, log10=F.log10, cos=F.cos,
                   sin=F.sin, tan=F.tan, cosh=F.cosh, sinh=F.sinh, tanh=F.tanh,
                   atan2=F.arctan2, atan=F.arctan, asin=F.arcsin, acos=F.arccos,
                   fabs=F.absolute, phase=F.angle,
                   floor=lambda x: math.floor(lift(x)) if True else 0,
                   ceil=lambda x: math.ceil(lift(x)),
                   isnan=lambda x: isinstance(x, float) and x != x,
                   isinf=lambda x: isinstance(x, float) and math.isinf(x),
                   isfinite=lambda x: not isinstance(x, float) or math.isfinite(x),
                   radians=lambda x: lift(x) * F.pi() / 180,
                   degrees=lambda x: lift(x) * 180 / F.pi(),
                   hypot=hypot, pow=lambda a, b: lift(a) ** lift(b),
                   fsum=lambda l: _s(list(l)), prod=lambda l: _p(list(l)),
                   isclose=lambda a, b, rel_tol=Fraction(1, 10 ** 9), abs_tol=0:
                   bool(F.absolute(lift(a) - lift(b)) <= maximum(
                       lift(rel_tol) * maximum(F.absolute(a), F.absolute(b)),
                       lift(abs_tol))),
                   polar=lambda z: (F.absolute(z), F.angle(z)),
                   rect=lambda r, t: lift(r) * F.exp(S.IU * lift(t)))
        if n in tab:
            f = tab[n]
            if self.cplx and n in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan',
                                   'cosh', 'sinh', 'tanh', 'log10'):
                return lambda x: f(lift(x).withkind('c'))
            if n == 'sqrt':
                def msqrt(x):
                    x = lift(x)
                    if bool(x < 0):
                        raise ValueError('math domain error')
                    return F.sqrt(x)
                return msqrt
            if n == 'log':
                def mlog(x, b=None):
                    x = lift(x)
                    if bool(x <= 0):
                        raise ValueError('math domain error')
                    return F.log(x) if b is None else F.log(x) / F.log(b)
                return mlog
            return f
        return getattr(math, n)
