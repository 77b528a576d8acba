"""Path exploration, solver queries, assertions, replay."""
import math
import random
import time
import traceback
from fractions import Fraction
import numpy as _np
import z3
from . import poly as P
from . import sym as S
from . import funcs as F
from .poly import W, FM
from .sym import Sym, SymBool, lift, Unsupported, Infeasible, PathLimit, Restart


class Violated(Exception):
    """concrete run: an assertion of the property failed"""


class CheckError(Exception):
    pass


class AssumeFailed(BaseException):
    """concrete run: an assumption does not hold for this input"""


# ------------------------------------------------------------------ statistics
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.
        self.paths = 0
        self.branches = 0
        self.infeasible = 0
        self.asserts = 0
        self.norm_only = 0
        self.replays = 0
        self.validated = 0
        self.diverged = 0
        self.maxterms = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            if k == 'maxterms':
                self.maxterms = max(self.maxterms, v)
            else:
                setattr(self, k, getattr(self, k) + v)


# ---------------------------------------------------------------- z3 encoding
class Enc:
    """translation of polynomials / conditions to z3 terms for one path.

    pins: {variable index: (re, im) Fractions} replaces variables by numbers."""

    def __init__(self, pins=None):
        self.pins = pins or {}
        self.zv = {}
        self.cons = []
        self.pw = {}
        self.pc = {}

    def var(self, i):
        r = self.zv.get(i)
        if r is not None:
            return r
        if i in self.pins:
            r = self.zv[i] = self.pins[i]
            return r
        v = P.VT.vars[i]
        if i == 0:
            r = self.zv[0] = (0, 1)
            return r
        nm = 'v%d_%s' % (i, v.name)
        if i in P.VT.sub:
            r = self.zv[i] = self.poly(P.VT.sub[i])
            return r
        k = v.kind
        if k in ('cosE', 'sinE'):
            r = self.zv[i] = (self.var(v.info.idx)[k == 'sinE'], 0)
            return r
        if v.conj is None:
            x = z3.Real(nm)
            r = self.zv[i] = (x, 0)
            self._bounds(v, x)
            if k == 'sqrt':
                a, b = self.poly(P.VT.sq[i])
                self.cons.append(x * x == a)
                self.cons.append(x >= 0)
            elif k == 'rexp':
                self.cons.append(x > 0)
                a, _ = self.sym(v.info)
                a = _z(a)
                self.cons.append(z3.Implies(a > 0, x > 1 + a))
                self.cons.append(z3.Implies(a < 0, x < 1))
                self.cons.append(z3.Implies(a == 0, x == 1))
            elif k == 'ln':
                a, _ = self.sym(v.info)
                a = _z(a)
                self.cons.append(z3.Implies(a > 1, x > 0))
                self.cons.append(z3.Implies(a < 1, x < 0))
                self.cons.append(z3.Implies(a == 1, x == 0))
                self.cons.append(a > 0)
            elif k == 'angle':
                w, aw = v.info
                re, im = self.sym(w)
                re, im = _z(re), _z(im)
                p = _z(self.var(P.VT.byname['pi'].idx)[0])
                self.cons += [x <= p, x > -p,
                              (x > 0) == z3.Or(im > 0, z3.And(im == 0, re < 0)),
                              z3.Implies(im < 0, x < 0),
                              z3.Implies(re > 0, z3.And(2 * x < p, 2 * x > -p)),
                              z3.Implies(re < 0, z3.Or(2 * x > p, 2 * x < -p))]
            return r
        if v.conj == 'inv':
            c, s = z3.Real(nm + '_c'), z3.Real(nm + '_s')
            r = self.zv[i] = (c, s)
            self.cons.append(c * c + s * s == 1)
            return r
        # conjugate pairs
        if v.info is not None and v.info[0] == 'conj':
            m = v.conj
            a, b = self.var(m.idx)
            r = self.zv[i] = (a, -b if not isinstance(b, (int, Fraction)) else -b)
            return r
        if k == 'cplx' and i in self.zv:
            return self.zv[i]
        x, y = z3.Real(nm + '_r'), z3.Real(nm + '_i')
        r = self.zv[i] = (x, y)
        if v.conj.idx not in self.zv:
            self.zv[v.conj.idx] = (x, -y)
        if k == 'csqrt':
            _, ys, g = v.info
            a, b = self.poly(ys.n)
            self.cons += [x * x - y * y == a, 2 * x * y == b]
            if g is None:
                self.cons.append(x >= 0)
            else:
                ga, gb = self.sym_nodiv(g)
                self.cons.append(_z(x * ga + y * gb) >= 0)
        elif k == 'cexp':
            self.cons.append(x * x + y * y > 0)
        return r

    def _bounds(self, v, x):
        if v.lo is not None:
            self.cons.append(x >= _q(v.lo))
        if v.hi is not None:
            self.cons.append(x <= _q(v.hi))
        if v.pos == '+':
            self.cons.append(x > 0)
        elif v.pos == '0+':
            self.cons.append(x >= 0)
        elif v.pos == '-':
            self.cons.append(x < 0)
        elif v.pos == '0-':
            self.cons.append(x <= 0)

    def power(self, i, e):
        k = (i, e)
        r = self.pw.get(k)
        if r is None:
            b = self.var(i)
            r = b
            for _ in range(e - 1):
                r = _cmul(r, b)
            self.pw[k] = r
        return r

    def poly(self, p):
        key = None
        if len(p) > 3:
            key = id(p)
            r = self.pc.get(key)
            if r is not None and r[0] is p:
                return r[1]
        res = []
        ims = []
        cre = Fraction(0)
        cim = Fraction(0)
        for k, c in p.items():
            t = (c, 0)
            i = 0
            while k:
                e = k & FM
                if e:
                    t = _cmul(t, self.power(i, e))
                k >>= W
                i += 1
            a, b = t
            if isinstance(a, (int, Fraction)):
                cre += a
            else:
                res.append(a)
            if isinstance(b, (int, Fraction)):
                cim += b
            else:
                ims.append(b)
        r = (_sum(res, cre), _sum(ims, cim))
        if key is not None:
            self.pc[key] = (p, r)
        return r

    def sym_nodiv(self, s):
        if s.d:
            # multiply by |den|^2 > 0
            n = Sym(s.n, 1, (), 'c')
            for f, e in s.d:
                n = n * Sym(P.VT.fac[f], 1, (), 'c').conjugate() ** e
            return self.sym_nodiv(n) if not n.d else self.poly(n.n)
        return self.poly(s.n)

    def sym(self, s):
        a, b = self.poly(s.n)
        q = Fraction(1, s.q)
        a, b = _cmul((a, b), (q, 0))
        for f, e in s.d:
            fa, fb = self.poly(P.VT.fac[f])
            for _ in range(e):
                if isinstance(fb, (int, Fraction)) and fb == 0:
                    a, b = _div(a, fa), _div(b, fa)
                else:
                    m = _add(_mul(fa, fa), _mul(fb, fb))
                    a, b = _cmul((a, b), (fa, _mul(-1, fb)))
                    a, b = _div(a, m), _div(b, m)
        return a, b

    def cond(self, c):
        """z3 BoolRef of a SymBool / bool"""
        if isinstance(c, (bool, _np.bool_)):
            return z3.BoolVal(bool(c))
        if c.op == 'not':
            return z3.Not(self.cond(c.a))
        if c.op == 'and':
            return z3.And(self.cond(c.a), self.cond(c.b))
        if c.op == 'or':
            return z3.Or(self.cond(c.a), self.cond(c.b))
        s = c.a
        if c.op == '==':
            a, b = self.poly(s.n)
            if s.k != 'c':
                if isinstance(b, (int, Fraction)) and b == 0:
                    return _z(a) == 0
                # declared real, polynomial form is complex: the value times
                # a common complex factor; zero iff both parts are zero
            return z3.And(_z(a) == 0, _z(b) == 0)
        # real value  n / (q prod f^e)
        n = Sym(s.n, 1, (), 'c')
        for f, e in s.d:
            p = P.VT.fac[f]
            ps = Sym(p, 1, (), 'c')
            if S._realpoly(p):
                if e % 2 == 0 or S._psgn(p) == '+':
                    continue
                n = n * ps
            else:
                n = n * ps.conjugate() ** e
        n2 = n
        a, b = self.sym(n2) if n2.d else self.poly(n2.n)
        return (_z(a) < 0) if c.op == '<' else (_z(a) <= 0)


def _q(f):
    return z3.Q(f.numerator, f.denominator) if isinstance(f, Fraction) else \
        z3.RealVal(f)


def _z(a):
    return _q(Fraction(a)) if isinstance(a, (int, Fraction)) else a


def _num(a):
    return isinstance(a, (int, Fraction))


def _mul(a, b):
    if _num(a) and _num(b):
        return a * b
    if _num(a):
        a, b = b, a
    if _num(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        return a * _z(b)
    return a * b


def _add(a, b):
    if _num(a) and _num(b):
        return a + b
    if _num(a) and a == 0:
        return b
    if _num(b) and b == 0:
        return a
    return _z(a) + _z(b)


def _div(a, b):
    if _num(b):
        return _mul(a, Fraction(1) / Fraction(b))
    if _num(a) and a == 0:
        return 0
    return _z(a) / b


def _cmul(x, y):
    a, b = x
    c, d = y
    if _num(b) and b == 0 and _num(d) and d == 0:
        return _mul(a, c), 0
    return (_add(_mul(a, c), _mul(-1, _mul(b, d))),
            _add(_mul(a, d), _mul(b, c)))


def _sum(l, c):
    if not l:
        return c
    if c:
        l = l + [_z(c)]
    return l[0] if len(l) == 1 else z3.Sum(l)


# ----------------------------------------------------------- numeric evaluation
class Sample:
    """one numeric assignment of the inputs; derived variables on demand"""

    def __init__(self, ctx, seed, given=None):
        self.ctx = ctx
        self.seed = seed
        self.given = given or {}
        self.env = []

    def sync(self):
        vs = P.VT.vars
        env = self.env
        if len(env) < len(vs) and P.VT.sub:
            # a rewritten variable may be defined by later ones: iterate
            env.extend([None] * (len(vs) - len(env)))
            todo = [i for i in range(len(vs)) if env[i] is None]
            for rnd in range(len(vs) + 2):
                left = []
                for i in todo:
                    try:
                        self._at(i, env)
                    except TypeError:
                        env[i] = None
                        left.append(i)
                if not left:
                    break
                if left == todo:
                    raise ValueError('cyclic definition')
                todo = left
            return env
        for i in range(len(env), len(vs)):
            v = vs[i]
            env.append(None)
            if v.inp:
                env[i] = self.ctx.input_value(v, self.seed, self.given)
            elif v.conj is not None and v.conj != 'inv' and v.conj.idx < i:
                env[i] = env[v.conj.idx].conjugate()
            else:
                env[i] = v.ev(env)
        return env

    def _at(self, i, env):
        v = P.VT.vars[i]
        if i in P.VT.sub:
            env[i] = F._numpoly(P.VT.sub[i], env)
        elif v.inp:
            env[i] = self.ctx.input_value(v, self.seed, self.given)
        elif v.conj is not None and v.conj != 'inv' and v.conj.idx < i:
            if env[v.conj.idx] is None:
                raise TypeError
            env[i] = env[v.conj.idx].conjugate()
        else:
            env[i] = v.ev(env)

    def value(self, s):
        return F.numeval(s, self.sync())

    def scale(self, s):
        """sum of moduli of the terms of the numerator, for tolerances"""
        env = self.sync()
        t = 0.
        for k, c in s.n.items():
            x = abs(c)
            i = 0
            while k:
                e = k & FM
                if e:
                    x *= abs(env[i]) ** e
                k >>= W
                i += 1
            t += x
        return t

    def holds(self, c, tol=1e-7):
        if isinstance(c, (bool, _np.bool_)):
            return bool(c)
        if c.op == 'not':
            r = self.holds(c.a)
            return r if r is None else not r
        if c.op == 'and':
            a, b = self.holds(c.a), self.holds(c.b)
            if a is None or b is None:
                return None
            return a and b
        if c.op == 'or':
            a, b = self.holds(c.a), self.holds(c.b)
            if a is None or b is None:
                return None
            return a or b
        s = c.a
        if c.op == '==':
            v = F._numpoly(s.n, self.sync())
            sc = self.scale(s)
            if abs(v) <= 1e-11 * sc:
                return True
            if abs(v) <= tol * sc:
                return None
            return False
        v = self.value(s)
        if abs(v) <= 1e-9 * max(1e-300, self.scale(s)
                                / max(1e-300, abs(F._numpoly(s.n, self.sync())))
                                * abs(v)):
            return None            # too close to the boundary to tell
        return v.real < 0

    def assignment(self):
        self.sync()
        out = {}
        for v in P.VT.vars:
            if v.inp and not v.name.endswith("'"):
                z = self.env[v.idx]
                out[v.name] = z if v.kind == 'cplx' else z.real
        return out


# --------------------------------------------------------------------- contexts
class Rec:
    __slots__ = ('label', 'a', 'b', 'kind', 'tol')

    def __init__(self, label, kind, a, b=None, tol=None):
        self.label, self.kind, self.a, self.b, self.tol = label, kind, a, b, tol


class Opts:
    timeout_branch = 400      # ms
    timeout_goal = 4000       # ms
    max_paths = 400
    max_seconds = 100
    npool = 6
    seed = 1
    direct_terms = 160        # size up to which the un-normalised claim is sent


class Ctx:
    """symbolic execution of one path"""
    symbolic = True

    def __init__(self, prefix, gran, stats, opts):
        self.table = S.T()
        self.prefix = prefix
        self.names = set()
        self.trace = []           # (decision, alternatives left)
        self.conds = []           # path condition
        self.opts = opts
        self.st = stats
        self.records = []
        self.choices = {}
        self.nonstrict = []       # expressions known to be <= 0
        self.divs = {}
        self.solver = None
        self.enc = None
        self.nenc = 0
        self.pool = [Sample(self, opts.seed * 1000 + i) for i in range(opts.npool)]
        self.nextseed = opts.seed * 1000 + opts.npool
        self.pending = []         # alternatives to schedule
        self.notes = []
        self.t0 = time.time()
        self.deadline = None
        self.ncond_pool = 0

    # ------------------------------------------------------------------ inputs
    def input_value(self, v, seed, given):
        if v.name in given:
            z = given[v.name]
            return complex(z)
        if v.kind == 'cplx' and v.name.endswith("'") and v.name[:-1] in given:
            return complex(given[v.name[:-1]]).conjugate()
        if v.kind == 'cplx' and v.name.endswith("'"):
            return self.input_value(v.conj, seed, given).conjugate()
        rnd = random.Random('%s|%s' % (seed, v.name))
        lo, hi = v.sample
        if v.kind == 'cplx':
            import cmath
            r = lo + (hi - lo) * math.sqrt(rnd.random())
            return cmath.rect(r, rnd.uniform(-math.pi, math.pi))
        return complex(_nice(rnd.uniform(lo, hi)))

    def real(self, name, lo=None, hi=None, s=None, strict=True):
        """real input; lo == 0 with strict means > 0"""
        if name in self.names:
            raise CheckError('input %s drawn twice' % name)
        self.names.add(name)
        v = self.table.new(name, 'real')
        v.inp = True
        if lo is not None and lo == 0:
            v.pos = '+' if strict else '0+'
        elif lo is not None:
            v.lo = Fraction(lo) if not isinstance(lo, Sym) else lo.cval()
            if v.lo > 0:
                v.pos = '+'
        if hi is not None:
            v.hi = Fraction(hi) if not isinstance(hi, Sym) else hi.cval()
            if v.hi < 0 or (v.hi == 0 and strict):
                v.pos = '-'
        if s is None:
            a = float(v.lo) if v.lo is not None else \
                (0.05 if v.pos == '+' else (0. if v.pos == '0+' else -2.))
            b = float(v.hi) if v.hi is not None else max(2., a + 2)
            s = (a, b)
        v.sample = (_fl(s[0]), _fl(s[1]))
        return Sym(P.pvar(v.idx), 1, (), 'f')

    def cplx(self, name, s=(0.1, 0.8)):
        """complex input (as a pair z, conj(z) of indeterminates)"""
        if name in self.names:
            raise CheckError('input %s drawn twice' % name)
        self.names.add(name)
        v = self.table.new(name, 'cplx')
        w = self.table.new(name + "'", 'cplx')
        v.conj, w.conj = w, v
        v.inp = w.inp = True
        v.sample = w.sample = (_fl(s[0]), _fl(s[1]))
        v.info = ('main',)
        w.info = ('conj', v)
        w.ev = None
        return Sym(P.pvar(v.idx), 1, (), 'c')

    def csplit(self, name, s=(-0.8, 0.8)):
        """complex input as real and imaginary part"""
        a = self.real(name + '.re', s=s)
        b = self.real(name + '.im', s=s)
        return (a + S.IU * b).withkind('c')

    def cmat(self, name, n, m=None, s=(0.1, 0.8)):
        from . import shim
        m = n if m is None else m
        A = shim._fill((n, m), [self.cplx('%s%d%d' % (name, i, j), s)
                                for i in range(n) for j in range(m)])
        A._k = 'c'
        return A

    def choose(self, name, options):
        """one of finitely many options (all are explored)"""
        options = list(options)
        i = self._decide(len(options), None)
        self.choices[name] = i
        return options[i]

    # ----------------------------------------------------------------- branches
    def _decide(self, n, feas):
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
            return d
        ok = [i for i in range(n) if feas is None or feas(i)]
        if not ok:
            raise Infeasible()
        for i in ok[1:]:
            self.pending.append(self.trace + [i])
        self.trace.append(ok[0])
        return ok[0]

    def branch(self, cond):
        self.st.branches += 1
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('time')
        neg = SymBool('not', cond)
        alts = [cond, neg]

        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
        else:
            votes = [sm.holds(cond) for sm in self.pool]
            t = any(v is True for v in votes)
            f = any(v is False for v in votes)
            if not t:
                t = self.feasible(cond)
            if not f:
                f = self.feasible(neg)
            if not t and not f:
                self.st.infeasible += 1
                raise Infeasible()
            if t and f:
                self.pending.append(self.trace + [1])
            d = 0 if t else 1
            self.trace.append(d)
        self.take(alts[d])
        return d == 0

    def take(self, cond):
        """add cond to the path condition"""
        if isinstance(cond, (bool, _np.bool_)):
            if not cond:
                raise Infeasible()
            return
        self.conds.append(cond)
        self.pool = [sm for sm in self.pool if sm.holds(cond) is True]
        c = cond
        if c.op == 'not' and isinstance(c.a, SymBool) and c.a.op == 'not':
            c = c.a.a
        if c.op == '==':
            self._substitute(c.a)
        t = None
        if c.op == '<=':
            t = c.a
        elif c.op == 'not' and isinstance(c.a, SymBool) and c.a.op == '<':
            t = -c.a.a
        if t is not None:
            # t <= 0 and -t <= 0: an equality
            for o in self.nonstrict:
                if len(o.n) == len(t.n) and (o + t).iszero():
                    self._substitute(t)
                    break
            self.nonstrict.append(t)
        if self.solver is not None:
            self._sync_solver()

    def _substitute(self, s):
        """use an equality n == 0 as a rewrite rule if it is linear in an input"""
        n = P.reduce_(s.n)
        vs = P.VT.vars
        cand = []
        for k, c in n.items():
            i, x = 0, k
            while x and not (x & FM):
                x >>= W
                i += 1
            if i == 0 or x != 1 or abs(c) != 1:
                continue
            if vs[i].inp:
                cand.append((i, k, c))
        for i, k, c in sorted(cand, reverse=True):
            v = vs[i]
            m = FM << (W * i)
            if sum(1 for kk in n if kk & m) != 1:
                continue
            rhs = {kk: -cc * c for kk, cc in n.items() if kk != k}
            if v.conj is None:
                if not S._realpoly(rhs):
                    continue
                if any(P.VT.vars[j].kind not in ('real',)
                       for j in P.pvars(rhs)):
                    continue
                self.table.rule_sub(v, rhs)
            else:
                w = v.conj
                mw = FM << (W * w.idx)
                if any(kk & mw for kk in n):
                    continue
                rc = S.conjpoly(rhs)
                if rc.d:
                    continue
                self.table.rule_sub(v, rhs)
                self.table.rule_sub(w, rc.n)
            self._resub(v)
            # samples must be recomputed
            self.refill()
            return

    def _resub(self, v):
        """v has been rewritten: rewrite the derived variables defined by it"""
        ids = {v.idx}
        if v.conj is not None and v.conj != 'inv':
            ids.add(v.conj.idx)
        again = True
        while again:
            again = False
            for u in list(P.VT.vars):
                if u.idx in P.VT.sub:
                    continue
                arg = getattr(u, 'arg', None)
                if arg is None and u.kind == 'sqrt':
                    arg = Sym(P.VT.sq[u.idx], 1, (), 'f')
                if arg is None:
                    continue
                pv = set(P.pvars(arg.n))
                for f, e in arg.d:
                    pv |= set(P.pvars(P.VT.fac[f]))
                if not pv & ids:
                    continue
                na = Sym(P.reduce_(arg.n), arg.q, (), arg.k)
                for f, e in arg.d:
                    na = na / Sym(P.reduce_(P.VT.fac[f]), 1, (), 'c') ** e
                try:
                    if u.kind == 'sqrt':
                        new = F.sqrt_nonneg(na.withkind('f'))
                    else:
                        new = F.exp(na.withkind('c' if u.kind != 'rexp' else 'f'))
                except Unsupported:
                    continue
                if new.d or new.q != 1 or u.idx in P.pvars(new.n):
                    continue
                self.table.rule_sub(u, new.n)
                ids.add(u.idx)
                if u.conj is not None and u.conj != 'inv':
                    c = S.conjpoly(new.n)
                    if not c.d:
                        self.table.rule_sub(u.conj, c.n)
                        ids.add(u.conj.idx)
                again = True

    def refill(self, n=None, tries=60):
        """re-draw samples satisfying the path condition"""
        givens = [sm.given for sm in self.pool if sm.given]
        self.pool = []
        n = n or self.opts.npool
        for g in givens:
            sm = Sample(self, self.nextseed, g)
            if all(sm.holds(c) is True for c in self.conds):
                self.pool.append(sm)
        for _ in range(tries):
            if len(self.pool) >= n:
                break
            sm = Sample(self, self.nextseed)
            self.nextseed += 1
            try:
                if all(sm.holds(c) is True for c in self.conds):
                    self.pool.append(sm)
            except (ZeroDivisionError, OverflowError, ValueError):
                pass

    def _sync_solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.enc = Enc()
            self.nenc = 0
            self.ncons = 0
        for c in self.conds[self.nenc:]:
            if self._size(c) > 4000:
                continue
            self.solver.add(self.enc.cond(c))
        self.nenc = len(self.conds)
        self._flush()

    def _flush(self):
        while self.ncons < len(self.enc.cons):
            self.solver.add(self.enc.cons[self.ncons])
            self.ncons += 1

    def _size(self, c):
        if isinstance(c, (bool, _np.bool_)):
            return 0
        if c.op in ('not',):
            return self._size(c.a)
        if c.op in ('and', 'or'):
            return self._size(c.a) + self._size(c.b)
        t = len(c.a.n)
        for f, e in c.a.d:
            t *= max(1, len(P.VT.fac[f])) if len(P.VT.fac[f]) > 1 else 1
        return t

    def feasible(self, cond):
        if isinstance(cond, (bool, _np.bool_)):
            return bool(cond)
        if self._size(cond) > 3000:
            return True
        self._sync_solver()
        self.solver.push()
        n0 = self.ncons
        z = self.enc.cond(cond)
        extra = self.enc.cons[self.ncons:]
        r = self._check(self.solver, [z] + extra, self.opts.timeout_branch)
        if r == z3.sat:
            self._learn(self.solver.model())
        self.solver.pop()
        self.ncons = n0
        self._flush()
        return r != z3.unsat

    def _learn(self, model):
        """turn a solver model into a numeric sample"""
        g = self.model_inputs(model, self.enc)
        if g is not None and len(self.pool) < 40:
            pass
        self.learned = getattr(self, 'learned', [])
        self.learned.append(g)

    def model_inputs(self, model, enc):
        g = {}
        for v in P.VT.vars:
            if not v.inp or v.name.endswith("'"):
                continue
            z = enc.zv.get(v.idx)
            if z is None:
                continue
            try:
                a, b = [_znum(model, t) for t in z]
            except Exception:
                continue
            g[v.name] = complex(a, b) if v.kind == 'cplx' else a
        return g

    def _check(self, solver, extra, timeout):
        solver.set('timeout', int(timeout))
        t = time.time()
        solver.add(*extra)
        r = solver.check()
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.unsat:
            self.st.unsat += 1
        elif r == z3.sat:
            self.st.sat += 1
        else:
            self.st.unknown += 1
        return r

    def concretize_floor(self, x):
        """branch over the integer n with n <= x < n+1"""
        lim = 64
        cand = []
        for sm in self.pool:
            v = math.floor(sm.value(x).real)
            if v not in cand:
                cand.append(v)
        base = cand[0] if cand else 0
        for j in range(lim):
            if cand:
                n = cand.pop(0)
            else:
                n = base + ((j + 1) // 2 if j % 2 else -(j // 2))
            lo = x >= n
            hi = x < n + 1
            c = (lo & hi) if not isinstance(lo, bool) else (hi if lo else False)
            if isinstance(c, bool):
                if c:
                    return n
                continue
            if bool(c):
                return n
        raise Unsupported('integer part outside the bound')

    def note_div(self, o):
        pass

    # ---------------------------------------------------------------- assertions
    def assume(self, cond):
        if isinstance(cond, (bool, _np.bool_)):
            if not cond:
                raise Infeasible()
            return
        pos = len(self.trace)
        self.take(cond)
        if len(self.pool) < 2:
            self.refill()
        if not self.pool and pos >= len(self.prefix):
            if not self.feasible(True):
                raise Infeasible()

    def eq(self, label, a, b, tol=1e-6, scale=None):
        """a == b (numbers or arrays, elementwise)"""
        self.records.append(Rec(label, 'eq', a, b, tol))

    def le(self, label, a, b, tol=1e-6):
        """a <= b, for real numbers or arrays"""
        self.records.append(Rec(label, 'le', a, b, tol))

    def true(self, label, cond):
        if isinstance(cond, SymBool):
            cond = bool(cond)
        self.records.append(Rec(label, 'true', bool(cond)))

    def fail(self, label):
        self.records.append(Rec(label, 'true', False))

    def raises(self, label, exc, fn, *a, **k):
        """fn(*a, **k) must raise one of exc"""
        try:
            fn(*a, **k)
        except exc:
            self.true(label, True)
            return True
        self.true(label, False)
        return False

    def observe(self, label, a):
        """record a value for the encoding-vs-implementation comparison only"""
        self.records.append(Rec(label, 'obs', a))


def _fl(x):
    return float(x.cval()) if isinstance(x, Sym) else float(x)


def _nice(x):
    """a float with few significant digits"""
    return float('%.4g' % x)


def _znum(model, t):
    if isinstance(t, (int, Fraction)):
        return float(t)
    v = model.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise ValueError(v)


# ------------------------------------------------------------ concrete context
class CCtx:
    """the same harness on the real code with floating point inputs"""
    symbolic = False

    def __init__(self, values, choices):
        self.values = dict(values)
        self.ch = dict(choices)
        self.records = []
        self.rtol = 1.

    def real(self, name, lo=None, hi=None, s=None, strict=True):
        if name not in self.values:
            # the symbolic path ended before this input was drawn
            a = float(lo) if lo is not None else -2.
            b = float(hi) if hi is not None else max(2., a + 2)
            a, b = s if s is not None else (a, b)
            self.values[name] = _nice(random.Random(name).uniform(
                a if a or lo is None else 0.05 * (b - a), b))
        return float(self.values[name])

    def cplx(self, name, s=(0.1, 0.8)):
        if name not in self.values:
            import cmath
            r = random.Random(name)
            self.values[name] = cmath.rect(r.uniform(*s), r.uniform(-3.1, 3.1))
        return complex(self.values[name])

    def csplit(self, name, s=(-0.8, 0.8)):
        return complex(self.real(name + '.re', s=s), self.real(name + '.im', s=s))

    def cmat(self, name, n, m=None, s=(0.1, 0.8)):
        m = n if m is None else m
        return _np.array([[self.cplx('%s%d%d' % (name, i, j), s) for j in range(m)]
                          for i in range(n)], dtype=complex).reshape(n, m)

    def choose(self, name, options):
        return list(options)[self.ch.get(name, 0)]

    def assume(self, cond):
        if not bool(cond):
            raise AssumeFailed()

    def eq(self, label, a, b, tol=1e-6, scale=None):
        self.records.append(Rec(label, 'eq', a, b, tol))
        try:
            A = _np.asarray(a, dtype=complex)
            B = _np.asarray(b, dtype=complex)
        except Exception as e:
            raise Violated('%s: cannot compare %r with %r (%s)' %
                           (label, a, b, e))
        if A.shape != B.shape:
            raise Violated('%s: shapes %r and %r differ' %
                           (label, A.shape, B.shape))
        if A.size == 0:
            return
        if not (_np.all(_np.isfinite(A)) and _np.all(_np.isfinite(B))):
            raise Violated('%s: not finite: %r vs %r' % (label, a, b))
        sc = max(_np.max(_np.abs(A)), _np.max(_np.abs(B)))
        # rounding errors of values that should vanish do not count
        sc = max(sc, float(scale) if scale is not None else 1e-3)
        err = _np.max(_np.abs(A - B))
        if err > tol * sc + 1e-300:
            v = Violated('%s: got %s expected %s (max difference %.3g)' %
                         (label, _short(A), _short(B), err))
            v.diff = (label, A - B)
            raise v

    def le(self, label, a, b, tol=1e-6):
        self.records.append(Rec(label, 'le', a, b, tol))
        A = _np.asarray(a, dtype=float)
        B = _np.asarray(b, dtype=float)
        sc = max(_np.max(_np.abs(A)), _np.max(_np.abs(B)))
        if not _np.all(A <= B + tol * sc):
            raise Violated('%s: %s <= %s does not hold' %
                           (label, _short(A), _short(B)))

    def true(self, label, cond):
        self.records.append(Rec(label, 'true', bool(cond)))
        if not bool(cond):
            raise Violated('%s does not hold' % label)

    def fail(self, label):
        self.true(label, False)

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self.true(label, True)
            return True
        raise Violated('%s: no exception was raised' % label)

    def observe(self, label, a):
        self.records.append(Rec(label, 'obs', a))


def _short(A):
    s = _np.array2string(A, precision=8, separator=',', threshold=40)
    s = ' '.join(s.split())
    return s if len(s) < 400 else s[:400] + '...'


# ----------------------------------------------------------------- exploration
class Result:
    def __init__(self):
        self.violations = []      # dict(label, inputs, choices, detail)
        self.inconclusive = []    # (label, reason)
        self.labels = {}          # label -> number of discharged assertions
        self.notes = []
        self.samples = []
        self.witness = 0
        self.exhausted = True


def sym_elems(a, b):
    """pair up the elements of two values; None if shapes differ"""
    if hasattr(a, 'toarray'):
        a = a.toarray()
    if hasattr(b, 'toarray'):
        b = b.toarray()
    A = _np.empty((), dtype=object)
    A = _oarr(a)
    B = _oarr(b)
    if A.shape != B.shape:
        return None
    return list(zip(A.ravel().tolist() if A.dtype != object else list(A.ravel()),
                    B.ravel().tolist() if B.dtype != object else list(B.ravel())))


def _oarr(a):
    if isinstance(a, _np.ndarray):
        return a
    if isinstance(a, (list, tuple)):
        sub = [_oarr(x) for x in a]
        if not sub:
            return _np.empty((0,), dtype=object)
        sh = sub[0].shape
        if any(x.shape != sh for x in sub):
            return _np.empty((len(sub), -1 % 7), dtype=object)
        r = _np.empty((len(sub),) + sh, dtype=object)
        for i, x in enumerate(sub):
            if sh == ():
                r[i] = x.item() if isinstance(x, _np.ndarray) else x
            else:
                r[i, ...] = x
        return r
    r = _np.empty((), dtype=object)
    r[()] = a
    return r
