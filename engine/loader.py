"""loads /repo/src/pyRFtk (and the harnesses) for symbolic execution: the
current source text is parsed, literals become exact numbers, division / power /
% formatting go through helpers and the modules see the shims instead of numpy
and scipy."""
import ast
import builtins
import os
import sys
import types
from fractions import Fraction
import operator
import numpy as _np
from . import sym as S
from . import funcs as F
from . import shim, text
from .sym import Sym, SymBool, lift, Unsupported

SRC = os.environ.get('PYRFTK_SRC', '/repo/src')


# -------------------------------------------------------------- AST transform
class Tr(ast.NodeTransformer):
    def __init__(self):
        self.consts = []

    def visit_Constant(self, n):
        if type(n.value) in (float, complex):
            return ast.copy_location(ast.Call(
                ast.Name('__sx_const__', ast.Load()),
                [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
                if v.format_spec is not None:
                    v.format_spec = self.visit(v.format_spec)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: '__sx_div__', ast.Pow: '__sx_pow__',
             ast.Mod: '__sx_mod__', ast.FloorDiv: None}.get(type(n.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()),
                                              [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = {ast.Div: '__sx_idiv__', ast.Pow: '__sx_pow__',
             ast.Mod: '__sx_mod__'}.get(type(n.op))
        if f:
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            for x in ast.walk(load):
                if hasattr(x, 'ctx') and x is not load:
                    x.ctx = ast.Load()
            return ast.copy_location(ast.Assign(
                [n.target], ast.copy_location(ast.Call(
                    ast.Name(f, ast.Load()), [load, n.value], []), n)), n)
        return n


_CONST = {}


def sx_const(r):
    v = _CONST.get(r)
    if v is None:
        if r.endswith('j'):
            v = S.cconst(0, Fraction(r[:-1]))
        elif r in ('inf', 'nan') or 'inf' in r:
            v = float(r)
        else:
            v = Sym.const(Fraction(r), 'f')
        _CONST[r] = v
    return v


def _intish(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, float)


def sx_div(a, b):
    if _intish(a) and _intish(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return Sym.const(Fraction(int(a), int(b)), 'f')
    a = _fix(a)
    b = _fix(b)
    return a / b


def _fix(a):
    if isinstance(a, _np.ndarray) and a.dtype.kind in 'iubfc':
        return shim._map(lift, a)
    if isinstance(a, (_np.floating, _np.complexfloating, float, complex)):
        return lift(a)
    return a


def sx_idiv(a, b):
    if isinstance(a, shim.SymArray):
        a /= b
        return a
    return sx_div(a, b)


def sx_pow(a, b):
    if _intish(a) and _intish(b) and b < 0:
        return Sym.const(Fraction(int(a)), 'f') ** int(b)
    return _fix(a) ** _fix(b)


def sx_mod(a, b):
    if isinstance(a, str):
        if text.hassym(b):
            return text.percent(a, b)
        return a % b
    return a % b


# ------------------------------------------------------------------- imports
class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None,
                 fill_value=None, assume_sorted=False):
        x = shim.asarray(x)
        y = shim.asarray(y)
        if len(x) != y.shape[axis]:
            raise ValueError('x and y arrays must be equal in length along '
                             'interpolation axis.')
        self.axis = axis
        y = _np.moveaxis(y, axis, 0)
        if not assume_sorted:
            o = shim.argsort(x)
            x, y = x[o], y[o]
        self.x, self.y = [lift(v) for v in x], y
        self.n = len(self.x)
        names = {'linear': 1, 'quadratic': 2, 'cubic': 3, 'slinear': 1}
        if isinstance(kind, Sym):
            kind = int(kind)
        self.kind = names.get(kind, kind)
        extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if extrap and bounds_error:
            raise ValueError('Cannot extrapolate and raise at the same time.')
        self.extrap = extrap
        self.fill = fill_value
        self.be = bounds_error
        if isinstance(self.kind, str):
            if self.kind not in ('nearest', 'previous', 'next', 'zero'):
                raise NotImplementedError(self.kind)
        elif self.n < self.kind + 1:
            raise ValueError('The number of derivatives at boundaries does not match'
                             if self.kind > 1 else 'x and y arrays must have at '
                             'least %d entries' % (self.kind + 1))
        self._coef = None

    def __call__(self, v):
        if isinstance(v, _np.ndarray) and v.ndim == 0:
            v = v[()]
        scalar = not isinstance(v, (list, tuple, _np.ndarray))
        vs = [v] if scalar else list(shim.asarray(v).ravel())
        out = [self._one(lift(u)) for u in vs]
        if scalar:
            return shim.array(out[0])
        if self.y.ndim == 1:
            return shim.array(out)
        r = shim.stack(out)
        return _np.moveaxis(r, 0, self.axis)

    def _one(self, v):
        x, y = self.x, self.y
        if not self.extrap:
            below, above = bool(v < x[0]), bool(v > x[-1])
            if below or above:
                if self.be or (self.be is None and self.fill is None):
                    raise ValueError('A value in x_new is %s the interpolation range.'
                                     % ('below' if below else 'above'))
                f = self.fill
                if isinstance(f, tuple):
                    f = f[0] if below else f[1]
                if f is None:
                    f = float('nan')
                return y[0] * 0 + f
        k = self.kind
        if isinstance(k, str):
            if k in ('previous', 'zero'):
                j = 0
                for i in range(self.n):
                    if bool(x[i] <= v):
                        j = i
                return y[j]
            if k == 'next':
                for i in range(self.n):
                    if bool(x[i] >= v):
                        return y[i]
                return y[-1]
            for i in range(self.n - 1):
                if bool(2 * v <= x[i] + x[i + 1]):
                    return y[i]
            return y[-1]
        if k == 0:
            j = 0
            for i in range(self.n):
                if bool(x[i] <= v):
                    j = i
            return y[j]
        if k == 1:
            j = 1
            while j < self.n - 1 and bool(v > x[j]):
                j += 1
            t = (v - x[j - 1]) / (x[j] - x[j - 1])
            return y[j - 1] + (y[j] - y[j - 1]) * t
        if self.n == k + 1:
            tot = None
            for i in range(self.n):
                w = Sym.const(1, 'f')
                for j in range(self.n):
                    if j != i:
                        w = w * (v - x[j]) / (x[i] - x[j])
                tot = y[i] * w if tot is None else tot + y[i] * w
            return tot
        if k == 3:
            return self._cubic(v)
        raise Unsupported('spline of order %r on %d points' % (k, self.n))

    def _cubic(self, v):
        """not-a-knot cubic spline (what scipy uses)"""
        x, n = self.x, self.n
        if self._coef is None:
            # unknown second derivatives M_i, linear in y
            A = [[Sym.const(0, 'f')] * n for _ in range(n)]
            h = [x[i + 1] - x[i] for i in range(n - 1)]
            Y = self.y.reshape(n, -1)
            B = []
            A[0][0], A[0][1], A[0][2] = h[1], -(h[0] + h[1]), h[0]
            B.append([Sym.const(0, 'f')] * Y.shape[1])
            for i in range(1, n - 1):
                A[i][i - 1], A[i][i], A[i][i + 1] = \
                    h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
                B.append([6 * ((Y[i + 1, c] - Y[i, c]) / h[i] -
                               (Y[i, c] - Y[i - 1, c]) / h[i - 1])
                          for c in range(Y.shape[1])])
            A[n - 1][n - 3], A[n - 1][n - 2], A[n - 1][n - 1] = \
                h[n - 2], -(h[n - 3] + h[n - 2]), h[n - 3]
            B.append([Sym.const(0, 'f')] * Y.shape[1])
            self._coef = (h, shim._lin_solve(A, B), Y)
        h, M, Y = self._coef
        j = 0
        while j < n - 2 and bool(v > x[j + 1]):
            j += 1
        a, b = (x[j + 1] - v), (v - x[j])
        hj = h[j]
        out = []
        for c in range(Y.shape[1]):
            out.append(M[j][c] * a ** 3 / (6 * hj) + M[j + 1][c] * b ** 3 / (6 * hj)
                       + (Y[j, c] / hj - M[j][c] * hj / 6) * a
                       + (Y[j + 1, c] / hj - M[j + 1][c] * hj / 6) * b)
        r = shim.array(out).reshape(self.y.shape[1:])
        return r[()] if r.shape == () else r


class _Any:
    """absorbs matplotlib"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __iter__(self):
        return iter((_Any(), _Any()))

    def __getitem__(self, k):
        return _Any()

    def __setitem__(self, k, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Mpl(_Any):
    def __init__(self, plot):
        self.pyplot = plot


class _Plot(_Any):
    """pyplot: what a harness puts in PLOT[0], if anything"""
    def __getattr__(self, n):
        if PLOT[0] is not None and not n.startswith('__'):
            return getattr(PLOT[0], n)
        return super().__getattr__(n)


PLOT = [None]
ODE = {'hook': None}


def odeint(*a, **k):
    if ODE['hook'] is None:
        raise Unsupported('odeint')
    return ODE['hook'](*a, **k)


def _scipy_constants():
    import scipy.constants as sc
    m = types.SimpleNamespace()
    m.speed_of_light = m.c = sx_const('299792458.0')
    m.mu_0 = sx_const(repr(sc.mu_0))
    # exactly 1/(mu0 c^2); scipy's rounded value differs by less than 1e-9
    m.epsilon_0 = 1 / (m.mu_0 * m.c * m.c)

    def ga(n):
        v = getattr(sc, n)
        return sx_const(repr(float(v))) if isinstance(v, (int, float)) else v
    m.__getattr__ = ga
    for n in ('e', 'k', 'h', 'hbar', 'pi', 'm_e', 'm_p', 'inch', 'foot', 'kilo',
              'mega', 'giga', 'milli', 'micro', 'nano', 'pico'):
        if n == 'pi':
            continue
        setattr(m, n, ga(n))
    return m


PRINT = [None]       # what print does in the encoded modules (None: nothing)


class Loader:
    def __init__(self):
        self.mods = {}
        self.sources = {}
        self.bi = self._builtins()
        self.shims = {}
        self.codes = {}

    def _builtins(self):
        d = dict(builtins.__dict__)
        d['__import__'] = self.imp
        d['float'] = shim.float_
        d['complex'] = shim.complex_
        d['int'] = shim.int_
        d['print'] = lambda *a, **k: PRINT[0](*a, **k) if PRINT[0] else None
        d['__sx_const__'] = sx_const
        d['__sx_div__'] = sx_div
        d['__sx_idiv__'] = sx_idiv
        d['__sx_pow__'] = sx_pow
        d['__sx_mod__'] = sx_mod
        return d

    # ---------------------------------------------------------------- importing
    def shim_for(self, name):
        if name in self.shims:
            return self.shims[name]
        m = None
        if name == 'numpy':
            m = shim.np
        elif name == 'numpy.linalg':
            m = shim.linalg
        elif name == 'math':
            m = shim.MathShim()
        elif name == 'cmath':
            m = shim.MathShim(True)
        elif name == 'scipy':
            m = types.SimpleNamespace()
            for sub in ('interpolate', 'integrate', 'constants', 'linalg'):
                setattr(m, sub, self.shim_for('scipy.' + sub))
        elif name == 'scipy.interpolate':
            m = types.SimpleNamespace(interp1d=Interp1d)
        elif name == 'scipy.integrate':
            m = types.SimpleNamespace(odeint=odeint)
        elif name == 'scipy.constants':
            m = _scipy_constants()
        elif name == 'scipy.linalg':
            m = types.SimpleNamespace(
                inv=shim.linalg.inv, solve=shim.linalg.solve, det=shim.linalg.det,
                block_diag=_block_diag,
                lu_factor=lambda A: (A,), lu_solve=lambda lu, b:
                shim.linalg.solve(lu[0], b))
        elif name == 'matplotlib.pyplot':
            m = _Plot()
        elif name == 'matplotlib':
            m = _Mpl(self.shim_for('matplotlib.pyplot'))
        elif name.split('.')[0] in ('matplotlib', 'mpl_toolkits'):
            m = _Any()
        elif name == 'logging':
            m = None
        if m is not None:
            self.shims[name] = m
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        if full.split('.')[0] == 'pyRFtk':
            m = self.load(full)
            if not fromlist:
                return self.load(full.split('.')[0])
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and \
                        self._file(full + '.' + f) is not None:
                    self.load(full + '.' + f)
            return m
        s = self.shim_for(full)
        if s is not None:
            if not fromlist and '.' in full:
                return self.shim_for(full.split('.')[0]) or s
            return s
        if full == 'logging':
            import logging
            return _LogShim(logging)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _file(self, full):
        p = os.path.join(SRC, *full.split('.'))
        if os.path.isdir(p) and os.path.exists(p + '/__init__.py'):
            return p + '/__init__.py'
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        path = self._file(full)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % full)
        m = types.ModuleType(full)
        ispkg = path.endswith('__init__.py')
        m.__package__ = full if ispkg else full.rsplit('.', 1)[0]
        m.__file__ = path
        m.__dict__['__builtins__'] = self.bi
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[full] = m
        parent, _, child = full.rpartition('.')
        try:
            if parent:
                self.load(parent)
                if self.mods.get(full) is not m:
                    return self.mods[full]
            self._exec(m, path)
        except BaseException:
            self.mods.pop(full, None)
            raise
        if parent:
            setattr(self.mods[parent], child, m)
        return m

    def _exec(self, m, path):
        m.__dict__.setdefault('__name__', m.__name__)
        exec(self.compile(path), m.__dict__)

    def compile(self, path):
        if path in self.codes:
            return self.codes[path]
        tree = ast.parse(open(path, encoding='utf-8').read(), path)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        self.codes[path] = code
        return code

    def load_harness(self, path, name):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.bi
        m.__package__ = ''
        self._hdir = os.path.dirname(path)
        exec(self.compile(path), m.__dict__)
        return m

    def fresh(self):
        """forget all modules: every path starts from a newly imported package
        (its module level numbers belong to the path's variable table)"""
        self.mods.clear()


def _block_diag(*arrs):
    arrs = [shim.asarray(a) for a in arrs]
    n = sum(a.shape[0] for a in arrs)
    k = sum(a.shape[1] for a in arrs)
    r = shim.zeros((n, k), complex)
    i = j = 0
    for a in arrs:
        r[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return r


class _NoCache(dict):
    """the manager does not know these loggers: it cannot clear their caches"""

    def __setitem__(self, k, v):
        pass


class _LogShim:
    """logging without files: messages of the symbolic copy are dropped"""

    def __init__(self, real):
        self._real = real
        self._lg = {}
        self.raiseExceptions = False

    def basicConfig(self, *a, **k):
        pass

    def getLogger(self, name=None):
        n = 'sx.' + (name or 'root')
        lg = self._real.Logger(n)
        lg = self._lg.setdefault(n, lg)
        if not lg.handlers:
            lg._cache = _NoCache()
            lg.addHandler(_NullH())
        return lg

    def __getattr__(self, n):
        return getattr(self._real, n)


import logging as _logging


class _NullH(_logging.Handler):
    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass
