"""elements of every class, lossless or not, with symbolic values"""
import numpy as np
from pyRFtk import rfCircuit, rfBase, rfRLC, rfTRL, rfObject, rfCoupler, rfArcObj


class Maker:
    """the symbolic values (made once, by name) and the elements made of them"""

    def __init__(self, ctx, k=''):
        self.ctx, self.k, self.made = ctx, k, {}

    def val(self, n, *a, **k):
        if n not in self.made:
            self.made[n] = self.ctx.real(n + self.k, *a, **k)
        return self.made[n]

    def R(self, n='R'):
        return self.val(n, 0, s=(1., 90.))

    def L(self, n='Li'):
        return self.val(n, 0, s=(1e-8, 4e-7))

    def C(self, n='Ci'):
        return self.val(n, 0, s=(1e-11, 1e-10))

    def Z0(self, n='Z0'):
        return self.val(n, 0, s=(10., 90.))

    def len(self, n='len'):
        return self.val(n, 0, 1., s=(.05, .9))

    def mat(self, n, N):
        if n not in self.made:
            self.made[n] = self.ctx.cmat(n + self.k, N)
        return self.made[n]

    def __call__(self, what, Z, **kw):
        """kw: Zbase given or not"""
        kw = dict(kw, Zbase=Z)
        if what == 'series':
            return rfRLC(Ls=self.L(), **kw)
        if what == 'shunt':
            return rfRLC(Cp=self.C(), **kw)
        if what == 'lossless ladder':
            return rfRLC(Ls=self.L(), Cs=self.C(), Lp=self.L('Lp'), Cp=self.C('Cp'), **kw)
        if what == 'resistor':
            return rfRLC(Rs=self.R(), **kw)
        if what == 'shunt resistor':
            return rfRLC(Rp=self.R('Rp'), **kw)
        if what == 'lossy ladder':
            return rfRLC(Rs=self.R(), Ls=self.L(), Rp=self.R('Rp'), Cp=self.C(), **kw)
        if what == 'line':
            return rfTRL(L=self.len(), Z0TL=self.Z0(), dx=300., **kw)
        if what == 'LC line':
            return rfTRL(L=self.len(), LTL=self.val('LTL', 1e-8, 1e-5, s=(1e-7, 4e-7)),
                         CTL=self.val('CTL', 1e-12, 1e-9, s=(2e-11, 2e-10)), dx=300., **kw)
        if what == 'lossy line':
            return rfTRL(L=self.len(), Z0TL=self.Z0(), rTL=self.val('rTL', 0, s=(.1, 3.)),
                         dx=300., **kw)
        if what == 'leaky line':
            return rfTRL(L=self.len(), Z0TL=self.Z0(), rTL=self.val('rTL', 0, s=(.1, 3.)),
                         gTL=self.val('gTL', 0, s=(.001, .01)), dx=300., **kw)
        if what == 'coupler':
            return rfCoupler(kc=self.val('kc', 0, 1, s=(.1, .9)),
                             Lc=self.val('Lc', 0, s=(.1, 2.)), **kw)
        if what == 'hybrid':
            return rfCoupler(**kw)
        if what == 'arc':
            return rfArcObj(self.L('Larc'), **kw)
        raise KeyError(what)


LOSSLESS = ['series', 'shunt', 'lossless ladder', 'line', 'LC line', 'coupler', 'hybrid', 'arc']
LOSSY = ['resistor', 'shunt resistor', 'lossy ladder', 'lossy line', 'leaky line']
