"""helpers shared by the harnesses (loaded twice: symbolically and for real)"""
import numpy as np

C0 = 299792458.


def waves_of(V, I, Z):
    """incident and reflected voltage waves, current flowing into the port"""
    return (V + Z * I) / 2, (V - Z * I) / 2


def line_abcd(gm, Zc, L):
    """V1 = A V2 + B I2', I1 = C V2 + D I2' with I2' leaving at port 2"""
    e = np.exp(gm * L)
    i = 1 / e
    ch, sh = (e + i) / 2, (e - i) / 2
    return ch, Zc * sh, sh / Zc, ch


def check_line_S(ctx, label, S, gm, Zc, L, Z):
    """S (voltage waves on real Z) is the scattering matrix of the uniform line"""
    A, B, C, D = line_abcd(gm, Zc, L)
    # two independent states: (V2, I2') = (1, 0) and (0, 1/Zc)
    for V2, I2 in ((1., 0.), (0., 1 / Zc)):
        V1 = A * V2 + B * I2
        I1 = C * V2 + D * I2
        a1, b1 = waves_of(V1, I1, Z)
        a2, b2 = waves_of(V2, -I2, Z)
        ctx.eq(label, S @ np.array([a1, a2]), np.array([b1, b2]))


class Stepper:
    """with Stepper(ctx): scipy's odeint is replaced by a simple integrator, which is an
    algebraic function of the equation, the initial values and the nodes it is given"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def __call__(self, func, y0, t, *args, **kw):
        self.n += 1
        sol = [[y for y in y0]]
        for i in range(len(t) - 1):
            h = (t[i + 1] - t[i]) / 2
            y = sol[-1]
            for x in (t[i], t[i] + h):
                d = func(y, x)
                y = [a + h * b for a, b in zip(y, d)]
            sol.append(y)
        return np.array(sol)

    def __enter__(self):
        if self.ctx.symbolic:
            from engine.loader import ODE
            self.keep = ODE['hook']
            ODE['hook'] = self
        else:
            import sys
            import scipy.integrate
            m = sys.modules['pyRFtk.rfTRL']
            self.keep = (getattr(m, 'odeint', None), scipy.integrate.odeint)
            m.odeint = self
            scipy.integrate.odeint = self
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            from engine.loader import ODE
            ODE['hook'] = self.keep
        else:
            import sys
            import scipy.integrate
            m = sys.modules['pyRFtk.rfTRL']
            m.odeint, scipy.integrate.odeint = self.keep
