"""the solver of differential equations replaced by an arbitrary solution"""
import sys
import numpy as np


class Stub:
    """arbitrary solution of the initial value problem"""

    def __init__(self, ctx, w, z, y, L):
        self.ctx, self.w, self.z, self.y, self.L = ctx, w, z, y, L
        self.sols = []

    def __call__(self, func, y0, t, *args, **kw):
        ctx = self.ctx
        n = len(t)
        k = len(self.sols)
        ctx.eq('integrated from 0', t[0], 0.)
        ctx.eq('integrated to L', t[n - 1], self.L)
        for i in range(n - 1):
            ctx.true('nodes increase', t[i] < t[i + 1])
        if len(kw):
            ctx.true('tolerance', kw['rtol'] <= 1e-6 and kw['atol'] <= 1e-6)
        v = [ctx.real('q%d' % i, s=(-1, 1)) for i in range(4)] if k == 0 else self.v
        self.v = v
        x = self.L * ctx.real('x%d' % k, 0, 1, s=(0.05, .95))
        d = func(v, x)
        V, I = v[0] + 1j * v[1], v[2] + 1j * v[3]
        dV = self.z(self.w, x) * I
        dI = self.y(self.w, x) * V
        ctx.eq('telegraphist equation', np.array([d[0], d[1]]),
               np.array([np.real(dV), np.imag(dV)]))
        ctx.eq('telegraphist equation', np.array([d[2], d[3]]),
               np.array([np.real(dI), np.imag(dI)]))
        sol = [[y0[i] for i in range(4)]]
        for j in range(1, n):
            sol.append([ctx.real('y%d_%d_%d' % (k, j, i), s=(-1, 1)) for i in range(4)])
        self.sols.append(sol)
        return np.array(sol)

    def install(self):
        m = sys.modules['pyRFtk.rfTRL'] if not self.ctx.symbolic else None
        if m is None:
            from engine.loader import ODE
            ODE['hook'] = self
        else:
            import scipy.integrate
            self.keep = (getattr(m, 'odeint', None), scipy.integrate.odeint)
            m.odeint = self
            scipy.integrate.odeint = self

    def remove(self):
        m = sys.modules['pyRFtk.rfTRL'] if not self.ctx.symbolic else None
        if m is not None:
            import scipy.integrate
            m.odeint, scipy.integrate.odeint = self.keep


def pl(xs, vs):
    """piecewise linear function"""
    def g(x):
        if x <= xs[0]:
            return vs[0]
        for i in range(len(xs) - 1):
            if x <= xs[i + 1]:
                return vs[i] + (vs[i + 1] - vs[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
        return vs[-1]
    return g
