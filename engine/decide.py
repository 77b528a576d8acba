"""explore all paths of one case, decide its assertions, replay on the real code"""
import math
import time
import traceback
import numpy as _np
import z3
from fractions import Fraction
from . import poly as P
from . import sym as S
from . import funcs as F
from .core import (Ctx, CCtx, Enc, Stats, Opts, Result, Rec, Violated, AssumeFailed,
                   Sample, sym_elems, _z, _short)
from .sym import Sym, SymBool, lift, Unsupported, Infeasible, PathLimit, Restart


def _numlike(x):
    import numbers
    return isinstance(x, (Sym, SymBool, numbers.Number, Fraction, _np.generic,
                          _np.ndarray))


class Decider:
    def __init__(self, case, hsym, hreal, opts, stats, expected=()):
        self.case = case              # case name
        self.hsym, self.hreal = hsym, hreal
        self.opts, self.st = opts, stats
        self.res = Result()
        self.nval = 0
        self.seen = set()

    # -------------------------------------------------------------- exploration
    def run(self):
        deadline = time.time() + self.opts.max_seconds
        todo = [[]]
        npaths = 0
        while todo:
            if npaths >= self.opts.max_paths or time.time() > deadline:
                self.res.exhausted = False
                self.res.inconclusive.append(
                    ('*', 'bound reached: %d paths explored, %d open' %
                     (npaths, len(todo))))
                break
            prefix = todo.pop()
            ctx = None
            gran = {}
            for _ in range(40):
                tab = S.Table(gran)
                P.set_table(tab)
                ctx = Ctx(prefix, gran, self.st, self.opts)
                ctx.deadline = deadline + 20
                S.set_ctx(ctx)
                try:
                    status, info = self._onepath(ctx)
                except Restart:
                    continue
                break
            else:
                status, info = 'unsupported', 'granularity does not settle'
            todo.extend(ctx.pending)
            npaths += 1
            if status == 'infeasible':
                continue
            self.st.paths += 1
            self._finish(ctx, status, info)
            if len(self.res.violations) >= 3:
                break
        S.set_ctx(None)
        return self.res

    def _onepath(self, ctx):
        try:
            self.hsym(ctx)
            return 'ok', None
        except Restart:
            raise
        except Infeasible:
            return 'infeasible', None
        except PathLimit as e:
            return 'unsupported', 'time bound'
        except (Unsupported, P.Explosion) as e:
            return 'unsupported', '%s: %s' % (type(e).__name__, _where(e))
        except RecursionError as e:
            return 'unsupported', 'recursion'
        except Exception as e:
            return 'exception', e

    # ------------------------------------------------------------------- verdict
    def _finish(self, ctx, status, info):
        res = self.res
        if status == 'unsupported':
            res.inconclusive.append(('path', info))
        cands = []
        for r in ctx.records:
            self.st.asserts += r.kind != 'obs'
            try:
                ok, why = self._record(ctx, r)
            except Restart:
                ok, why = None, 'granularity'
            except (Unsupported, P.Explosion) as e:
                ok, why = None, 'not decided: %s' % e
            if ok is True:
                res.labels[r.label] = res.labels.get(r.label, 0) + 1
            elif ok is False:
                cands.append((r.label, why))
            else:
                res.inconclusive.append((r.label, why))
        if status == 'exception':
            cands.append(('exception %s' % type(info).__name__,
                          [('exc', info)]))
        hit = False
        for label, goals in cands:
            if (label,) in self.seen and len(cands) > 1:
                continue
            if self._confirm(ctx, label, goals, info):
                hit = True
                break
        if not hit:
            self._validate(ctx, status)
            if status == 'unsupported':
                # not decided: other witnesses of the path found by the solver
                for k in (1, 2):
                    if not self.res.violations:
                        self._validate(ctx, status, k)

    def _record(self, ctx, r):
        """True / (False, goals) / (None, reason)"""
        if r.kind == 'obs':
            return True, None
        if r.kind == 'true':
            if r.a:
                self._query_false(ctx)
                return True, None
            return False, [('path', None)]
        el = sym_elems(r.a, r.b)
        if el is None:
            return False, [('path', 'shapes')]
        goals = []
        if r.kind == 'eq':
            bad = None
            for a, b in el:
                if not (_numlike(a) and _numlike(b)):
                    if isinstance(a, type(b)) and a == b:
                        continue
                    return False, [('path', 'values %r / %r' % (a, b))]
                a, b = lift(a), lift(b)
                if not isinstance(a, Sym) or not isinstance(b, Sym):
                    if (not isinstance(a, Sym) and not isinstance(b, Sym) and
                            (a == b)):
                        continue
                    return False, [('path', 'not finite')]
                self.st.maxterms = max(self.st.maxterms, len(a.n), len(b.n))
                d = a - b
                if d.iszero():
                    self._prove_zero(ctx, a, b)
                    continue
                goals.append(('ne', d, a, b, r.tol))
            if not goals:
                return True, None
            left = []
            for g in goals:
                v = self._solve_goal(ctx, SymBool('not', SymBool(
                    '==', Sym(g[1].n, 1, (), g[1].k))))
                if v == 'unsat':
                    continue
                left.append(g)
            return (True, None) if not left else (False, left)
        # le
        for a, b in el:
            a, b = lift(a), lift(b)
            c = (b.asreal() < a.asreal()) if isinstance(a, Sym) and \
                isinstance(b, Sym) else (b < a)
            if c is False:
                self._query_false(ctx)
                continue
            if c is True:
                return False, [('path', None)]
            v = self._solve_goal(ctx, c)
            if v == 'unsat':
                continue
            goals.append(('cond', c, v))
        if not goals:
            return True, None
        return False, goals

    # ------------------------------------------------------------------- solver
    def _query_false(self, ctx):
        self.st.norm_only += 1

    def _prove_zero(self, ctx, a, b):
        """the claim a == b; the normal forms agree, ask the solver about the
        un-normalised cross-multiplied claim when it is small"""
        o = self.opts
        size = len(a.n) + len(b.n)
        for f, e in a.d + b.d:
            size += e * len(P.VT.fac[f])
        if a.n == b.n and a.q == b.q and a.d == b.d or size > o.direct_terms \
                or getattr(self, 'ndirect_fail', 0) > 6:
            s = z3.Solver()
            s.add(z3.RealVal(0) != 0)
            t = time.time()
            assert s.check() == z3.unsat
            self.st.solver_s += time.time() - t
            self.st.queries += 1
            self.st.unsat += 1
            self.st.norm_only += 1
            return
        enc = Enc()
        x, y = enc.poly(a.n), enc.poly(b.n)
        from .core import _cmul
        x = _cmul(x, (b.q, 0))
        y = _cmul(y, (a.q, 0))
        for f, e in b.d:
            for _ in range(e):
                x = _cmul(x, enc.poly(P.VT.fac[f]))
        for f, e in a.d:
            for _ in range(e):
                y = _cmul(y, enc.poly(P.VT.fac[f]))
        claim = z3.Or(_z(x[0]) != _z(y[0]), _z(x[1]) != _z(y[1]))
        s = z3.Solver()
        # conjugate pairs are exact, algebraic definitions are needed
        for c in enc.cons:
            s.add(c)
        r = ctx._check(s, [claim], 300)
        if r != z3.unsat:
            self.ndirect_fail = getattr(self, 'ndirect_fail', 0) + 1
            self.st.norm_only += 1

    def _solve_goal(self, ctx, cond):
        """is cond satisfiable together with the path condition?"""
        # cheap refutation of unsatisfiability by a sample
        for sm in ctx.pool:
            if sm.holds(cond) is True:
                return 'sat?'
        if ctx._size(cond) > 4000:
            return 'unknown'
        s = z3.Solver()
        enc = Enc()
        for c in ctx.conds:
            if ctx._size(c) <= 4000:
                s.add(enc.cond(c))
        z = enc.cond(cond)
        for c in enc.cons:
            s.add(c)
        r = ctx._check(s, [z], self.opts.timeout_goal)
        if r == z3.unsat:
            return 'unsat'
        if r == z3.sat:
            self.lastmodel = ctx.model_inputs(s.model(), enc)
            return 'sat'
        return 'unknown'

    # ---------------------------------------------------------- counterexamples
    def _models(self, ctx, goal, n=4):
        """input assignments (candidates) for path ∧ goal"""
        out = []
        cond = None
        if goal[0] == 'ne':
            cond = SymBool('not', SymBool('==', Sym(goal[1].n, 1, (),
                                                    goal[1].k)))
        elif goal[0] == 'cond':
            cond = goal[1]
        P.set_table(ctx.table)

        def good(sm):
            try:
                return all(sm.holds(c) is True for c in ctx.conds) and \
                    (cond is None or sm.holds(cond) is True)
            except Exception:
                return False

        for sm in list(ctx.pool):
            if len(out) < n and good(sm):
                out.append(sm)
        seed = 7700
        tries = 0
        while len(out) < n and tries < 150:
            tries += 1
            sm = Sample(ctx, seed + tries)
            if good(sm):
                out.append(sm)
        if len(out) < n:
            # solver models; pin most inputs to the values of a sample
            base = 8800
            goalc = [c for c in ctx.conds if ctx._size(c) <= 4000]
            if cond is not None and ctx._size(cond) <= 4000:
                goalc = goalc + [cond]
            for t in range(6):
                sm0 = Sample(ctx, base + t)
                env = sm0.sync()
                pins = {}
                if t:
                    free = self._eqvars(goalc)
                    for v in P.VT.vars:
                        if v.inp and v.idx not in free and v.idx not in P.VT.sub:
                            z = env[v.idx]
                            pins[v.idx] = (Fraction(repr(z.real)),
                                           Fraction(repr(z.imag)))
                enc = Enc(pins)
                s = z3.Solver()
                try:
                    for c in goalc:
                        s.add(enc.cond(c))
                except Exception:
                    continue
                for c in enc.cons:
                    s.add(c)
                if ctx._check(s, [], 3000) == z3.sat:
                    g = ctx.model_inputs(s.model(), enc)
                    sm = Sample(ctx, base + t, g)
                    out.append(sm)
                    if len(out) >= n:
                        break
        return out

    def _eqvars(self, conds):
        """inputs occurring in conditions with an equality (left to the solver)"""
        out = set()

        def pv(p):
            for i in P.pvars(p):
                v = P.VT.vars[i]
                if v.inp:
                    out.add(i)
                    if v.conj is not None and v.conj != 'inv':
                        out.add(v.conj.idx)
                elif v.kind == 'sqrt':
                    pv(P.VT.sq[i])

        def rec(c):
            if isinstance(c, (bool, _np.bool_)):
                return
            if c.op in ('and', 'or'):
                rec(c.a), rec(c.b)
            elif c.op == 'not':
                rec(c.a)
            else:
                pv(c.a.n)
        for c in conds:
            rec(c)
        return out

    def _confirm(self, ctx, label, goals, info):
        """look for an input that shows the violation on the real code"""
        tried = 0
        reason = 'no model found within the time bound'
        for goal in goals[:3]:
            for sm in self._models(ctx, goal):
                try:
                    vals = sm.assignment()
                except Exception as e:
                    continue
                tried += 1
                out = replay(self.hreal, vals, ctx.choices)
                self.st.replays += 1
                if out[0] in ('violated', 'exception') and \
                        not stable(self.hreal, vals, ctx.choices):
                    reason = 'counterexample is not stable (rounding): ' + out[1]
                    continue
                if out[0] in ('violated', 'exception'):
                    self.res.violations.append(dict(
                        case=self.case, label=label, inputs=_ser(vals),
                        choices=dict(ctx.choices), detail=out[1],
                        goal=_goalstr(goal)))
                    return True
                reason = 'counterexample candidates did not reproduce on the ' \
                         'real code (%s) %s' % (out[0], _goalstr(goal))
        self.res.inconclusive.append((label, reason))
        return False

    # -------------------------------------------------------- encoding validation
    def _validate(self, ctx, status, which=0):
        lim = self.opts.max_validate if hasattr(self.opts, 'max_validate') else 8
        if self.nval >= lim:
            return
        P.set_table(ctx.table)
        sms = list(ctx.pool[which:which + 1]) or \
            self._models(ctx, ('path', None), which + 1)[which:]
        if not sms:
            self.res.notes.append('no numeric witness for path %s' %
                                  (ctx.trace,))
            return
        sm = sms[0]
        try:
            vals = sm.assignment()
        except Exception as e:
            return
        self.nval += 1
        cc = CCtx(vals, ctx.choices)
        out = _run_real(self.hreal, cc)
        self.st.replays += 1
        if out[0] == 'assume':
            return
        if out[0] in ('violated', 'exception') and \
                not stable(self.hreal, vals, ctx.choices):
            self.res.notes.append('unstable witness: ' + out[1])
            return
        if out[0] in ('violated', 'exception'):
            self.res.violations.append(dict(
                case=self.case, label='replay', inputs=_ser(vals),
                choices=dict(ctx.choices), detail=out[1],
                goal='found while validating the encoding on a path witness'))
            return
        self.res.witness += 1
        if status != 'ok':
            return
        ra, rb = ctx.records, cc.records
        if [r.label for r in ra] != [r.label for r in rb]:
            self.st.diverged += 1
            return
        okv = True
        for x, y in zip(ra, rb):
            if x.kind == 'true':
                if bool(x.a) != bool(y.a):
                    okv = False
                continue
            for u, w in ((x.a, y.a),) if x.kind == 'obs' else ((x.a, y.a),
                                                               (x.b, y.b)):
                d = self._cmpnum(sm, u, w, x.tol)
                if d:
                    okv = False
                    self.res.inconclusive.append(
                        (x.label, 'encoding disagrees with the real code: ' + d))
                    break
        if okv:
            self.st.validated += 1
            if len(self.res.samples) < 2:
                self.res.samples.append(dict(
                    case=self.case, choices=dict(ctx.choices),
                    inputs={k: str(v) for k, v in list(vals.items())[:12]},
                    assertions=[r.label for r in ra][:12],
                    path=[repr(c)[:160] for c in ctx.conds[:6]]))

    def _cmpnum(self, sm, u, w, tol):
        U = _tolist(u)
        Wv = _tolist(w)
        if len(U) != len(Wv):
            return 'sizes %d / %d' % (len(U), len(Wv))
        vals = []
        for a, b in zip(U, Wv):
            if not (_numlike(a) and _numlike(b)):
                if a != b:
                    return '%r / %r' % (a, b)
                continue
            try:
                a = lift(a)
                x = sm.value(a) if isinstance(a, Sym) else complex(a)
                vals.append((x, complex(b)))
            except (ZeroDivisionError, OverflowError):
                return None
        if not vals:
            return None
        sc = max(max(abs(x), abs(y)) for x, y in vals)
        er = max(abs(x - y) for x, y in vals)
        if not er <= max(1e-6, tol or 0) * max(sc, 1e-3):
            return 'difference %.3g of %.3g' % (er, sc)
        return None


def _tolist(a):
    if isinstance(a, _np.ndarray):
        return list(a.ravel())
    if isinstance(a, (list, tuple)):
        r = []
        for x in a:
            r += _tolist(x)
        return r
    return [a]


def _goalstr(g):
    if g[0] == 'ne':
        return 'got %s expected %s' % (S.show(g[2])[:300], S.show(g[3])[:300])
    if g[0] == 'exc':
        return ''.join(traceback.format_exception_only(type(g[1]), g[1])).strip() \
            + ' at ' + _where(g[1])
    return str(g[1])[:300] if len(g) > 1 else ''


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if 'pyRFtk' in f.filename or 'harness' in f.filename]
    s = '%s' % (e,)
    if fr:
        s += ' [%s:%d]' % (fr[-1].filename.split('/')[-1], fr[-1].lineno)
    elif tb:
        s += ' [%s:%d]' % (tb[-1].filename.split('/')[-1], tb[-1].lineno)
    return s


def _ser(vals):
    return {k: ([v.real, v.imag] if isinstance(v, complex) else v)
            for k, v in vals.items()}


def unser(vals):
    return {k: (complex(*v) if isinstance(v, list) else v)
            for k, v in vals.items()}


def _run_real(h, cc):
    import warnings
    old = S.CTX
    S.set_ctx(None)
    try:
        with warnings.catch_warnings(), _np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            h(cc)
        return 'ok', ''
    except Violated as e:
        return 'violated', str(e), getattr(e, 'diff', None)
    except AssumeFailed:
        return 'assume', ''
    except Exception as e:
        return 'exception', '%s: %s' % (type(e).__name__, _where(e))
    finally:
        S.set_ctx(old)


def replay(h, vals, choices):
    return _run_real(h, CCtx(vals, choices))


def stable(h, vals, choices):
    """does the violation persist for slightly scaled inputs, and does the
    difference vary smoothly with the inputs?  (rounding noise does not)"""
    neutral, found = True, False
    for s in (1 + 1e-5, 1 - 1e-5):
        o = replay(h, {k: v * s for k, v in vals.items()}, choices)
        if o[0] in ('violated', 'exception'):
            found = True
            break
        neutral &= o[0] == 'assume'
    if not found and not neutral:
        return False
    o = replay(h, vals, choices)
    if o[0] == 'violated' and o[2] is not None:
        label, d = o[2]
        n = _np.max(_np.abs(d))
        for j in range(1, 4):
            p = replay(h, {k: v * (1 + j * 7e-12 * (1 + i % 5)) for i, (k, v) in
                           enumerate(vals.items())}, choices)
            if p[0] == 'violated' and p[2] is not None and p[2][0] == label and \
                    p[2][1].shape == d.shape and \
                    not _np.max(_np.abs(p[2][1] - d)) <= 0.02 * n:
                return False
    return True
