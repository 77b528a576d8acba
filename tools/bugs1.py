bug('c01-nonreciprocal', 'C01', 'Y_from_S.py',
    [("np.linalg.inv(I + Sk)  @ (I - Sk) / Zbase for Sk in S",
      "np.linalg.solve(I + Sk.T, I - Sk.T) / Zbase for Sk in S")],
    'a network which is not reciprocal',
    'the admittance matrix is transposed', '''
from pyRFtk import Y_from_S
S = np.array([[.1, .9], [.2j, .3]])
Y = Y_from_S(S, 20.)
a = np.array([1., 2j])
close(20 * Y @ (a + S @ a), a - S @ a)
''')

bug('c02-power-wave-conj', 'C02', 'ConvertGeneral.py',
    [("QVa, QVb = np.conj(Zd) * iRd, Zd * iRd           # (nF,N)",
      "QVa, QVb = Zd * iRd, Zd * iRd                    # (nF,N)")],
    'generalised (power) waves with complex reference impedances as the source type',
    'V and I reconstructed from power waves with a complex reference are wrong', '''
from pyRFtk import ConvertGeneral
S = np.array([[.1 + .2j, .3], [.4j, -.2]])
Z1, Z2 = np.array([30 + 10j, 50 - 20j]), np.array([25., 75.])
T = ConvertGeneral(Z2, S, Z1, 'G', 'V')
close(ConvertGeneral(Z1, T, Z2, 'V', 'G'), S, 'round trip')
a = np.array([1., .5j])
b = S @ a
r = np.sqrt(Z1.real)
V, I = (Z1.conj() * a + Z1 * b) / r, (a - b) / r
close(T @ (V + Z2 * I), V - Z2 * I)
''')

bug('c02-frequency-tile', 'C02', 'ConvertGeneral.py',
    [("Zd = np.array(Zd.tolist() * nF).reshape(nF,N)",
      "Zd = np.repeat(Zd, nF).reshape(nF,N)")],
    'several frequencies and different impedances per port',
    'the per-port impedances are mixed up over the frequencies', '''
from pyRFtk import ConvertGeneral
S = np.array([[[.1, .2j], [.3, .4]], [[.4, .3j], [.2, .1]]])
Z1, Z2 = [30., 50.], [20., 70.]
T = ConvertGeneral(Z2, S, Z1)
for k in (0, 1):
    close(T[k], ConvertGeneral(Z2, S[k], Z1))
''')

bug('c03-ode-conductance', 'C03', 'rfTRL.py',
    [("dIC = self.gjwC(w, x) * (VI4[0]+1j*VI4[1])",
      "dIC = self.gjwC(w, 0) * (VI4[0]+1j*VI4[1])")],
    'a line whose capacitance or conductance depends on the position',
    'the shunt admittance at the line start is used along the whole line', '''
from pyRFtk import rfTRL
f = 50e6
C = [100e-12, 300e-12]
S = rfTRL(L=1., LTL=300e-9, CTL=C).getS(f)
# many short uniform sections
n = 400
T = np.eye(2)
w = 2 * np.pi * f
for k in range(n):
    c = C[0] + (C[1] - C[0]) * (k + .5) / n
    z, b = np.sqrt(300e-9 / c), w * np.sqrt(300e-9 * c) / n
    T = T @ np.array([[np.cos(b), 1j * z * np.sin(b)], [1j * np.sin(b) / z, np.cos(b)]])
(A, B), (C_, D) = T
d = A + B / 50 + C_ * 50 + D
want = np.array([[A + B / 50 - C_ * 50 - D, 2], [2, -A + B / 50 - C_ * 50 + D]]) / d
if np.max(np.abs(want - S)) > 1e-3:
    print('FAIL', want, S)
    sys.exit(1)
''')

bug('c04-visw-key', 'C04', 'rfTRL.py',
    [("if f not in self.solved or (Ahash, Zbase) not in self.solved[f]['VISWs']:",
      "if f not in self.solved or Ahash not in self.solved[f]['VISWs']:"),
     ("self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, E)",
      "self.solved[f]['VISWs'][Ahash] = (Vsw, Isw, E)"),
     ("return self.solved[f]['xs'], self.solved[f]['VISWs'][(Ahash, Zbase)]",
      "return self.solved[f]['xs'], self.solved[f]['VISWs'][Ahash]")],
    'two requests at one frequency with the same excitation numbers but different '
    'reference impedances',
    'the voltages along the line are those of the first reference impedance', '''
from pyRFtk import rfTRL
E = {'1': 1., '2': .5j}
t = rfTRL(L=1.3, Z0TL=35.)
a = t.maxV(40e6, E, 50.)
b = t.maxV(40e6, E, 20.)
close(b[0], rfTRL(L=1.3, Z0TL=35.).maxV(40e6, E, 20.)[0])
''')

bug('c05-reversed-arguments', 'C05', 'resolveTLparams.py',
    [("return (lambda w, x: p(x,w)), ddw, ddx", "return (lambda w, x: p(w,x)), ddw, ddx")],
    'a line parameter given as a function of position and frequency, in that order',
    'position and frequency are exchanged', '''
from pyRFtk.resolveTLparams import TLresolver
t = TLresolver(Z0TL=50., vr=1., rTL=lambda x, w: 3. + x + 1e-9 * w, L=1.)
close(t.rTL(1e8, .5), 3.6)
close(np.real(t.rjwL(1e8, .5)), 3.6)
''')

bug('c06-dc-shunt', 'C06', 'rfRLC.py',
    [("rcp = (self.Rp - Zbase) / (self.Rp + Zbase)",
      "rcp = (self.Rp - self.Zbase) / (self.Rp + self.Zbase)")],
    'f = 0, a series capacitor, a parallel resistor and a requested reference impedance '
    'different from that of the object',
    'the reflection of the shunt resistor is that for the wrong reference', '''
from pyRFtk import rfRLC
S = rfRLC(Cs=1e-10, Rp=30., Zbase=50.).getS(0., Zbase=20.)
close(S[1, 1], (30 - 20) / (30 + 20))
''')

bug('c07-negative-db', 'C07', 'rfCoupler.py',
    [("self.kc = 10**(-np.abs(self.kcdB)/20)",
      "self.kc = 10**(-self.kcdB/20) if self.kcdB > 0 else 10**(self.kcdB/10)")],
    'a coupling given as a negative number of dB',
    'the coupling factor is the square of the requested one', '''
from pyRFtk import rfCoupler
a = rfCoupler(kcdB=-10., f0Hz=40e6).getS(40e6)
b = rfCoupler(kcdB=10., f0Hz=40e6).getS(40e6)
close(a, b)
close(np.abs(a[0, 2]), 10 ** -.5)
''')

bug('c09-late-termination', 'C09', 'rfCircuit.py',
    [("            self.M[eqn, idxA] = -1.\n            self.M[eqn, idxB] = rho\n",
      "            self.M[eqn, idxB] = rho\n")],
    'a port is terminated after the circuit has been solved with this port external',
    'the termination has the opposite reflection', '''
from pyRFtk import rfCircuit, rfRLC
C = rfCircuit()
C.addblock('a', rfRLC(Rs=10., Cp=1e-10))
C.getS(30e6)
C.terminate('a.p', Z=20.)
D = rfCircuit()
D.addblock('a', rfRLC(Rs=10., Cp=1e-10))
D.terminate('a.p', Z=20.)
close(C.getS(40e6), D.getS(40e6))
''')

bug('c10-new-port-last', 'C10', 'rfCircuit.py',
    [("A, B = ('<-', '->') if p in newports else ('->', '<-')",
      "A, B = ('<-', '->') if newports and p == ports[-1] else ('->', '<-')")],
    'a connection with a new named port which is not given as the last argument',
    'the wave directions of the junction are wrong', '''
from pyRFtk import rfCircuit, rfRLC
def make(*c):
    C = rfCircuit(Portnames=['a.s', 'b.p', 'T'])
    C.addblock('a', rfRLC(Rs=10., Cp=1e-10))
    C.addblock('b', rfRLC(Ls=1e-7, Cp=1e-10))
    C.connect(*c)
    return C.getS(30e6)
close(make('a.p', 'b.s', 'T'), make('T', 'a.p', 'b.s'))
''')

bug('c11-rename-in-turn', 'C11', 'rfCircuit.py',
    [("""        N = len(RFobj)
        
        oports = []
        if hasattr(RFobj,'ports'):
            ports = {} if ports is None else ports
            if isinstance(ports, dict):
                # remap port names (note: empty dict pulls the object's portnames)
                oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                # possibly the user supplied non-existing port names
                if ports:
                    raise ValueError(
                        f'{whoami(__package__)}["{name}"]: ports {ports} not defined')
        
        if not oports: # thus""",
      """        N = len(RFobj)
        
        oports = []
        if hasattr(RFobj,'ports'):
            ports = {} if ports is None else ports
            if isinstance(ports, dict):
                # remap port names (note: empty dict pulls the object's portnames)
                oports = list(RFobj.ports)
                for _p, _new in ports.items():
                    # possibly the user supplied non-existing port names
                    if _p not in RFobj.ports:
                        raise ValueError(
                            f'{whoami(__package__)}["{name}"]: port {_p} not defined')
                    oports[oports.index(_p)] = _new
        
        if not oports: # thus""")],
    'a port map which exchanges port names',
    'the ports are renamed one after the other and end up with their old names', '''
from pyRFtk import rfCircuit, rfRLC
S = rfRLC(Rs=10., Cp=1e-10).getS(30e6)
C = rfCircuit(Portnames=['x.s', 'x.p'])
C.addblock('x', rfRLC(Rs=10., Cp=1e-10), ports={'s': 'p', 'p': 's'})
close(C.getS(30e6), S[::-1, ::-1])
''')

bug('c12-forward-wave', 'C12', 'rfCircuit.py',
    [("Vf = (Vk + Zbase * Ik) / 2", "Vf = (Vk + self.Zbase * Ik) / 2")],
    'a solution requested with a reference impedance other than that of the circuit',
    'the forward waves, and so the solution of nested circuits, are those of another '
    'reference impedance', '''
from pyRFtk import rfCircuit, rfRLC
C = rfCircuit(Zbase=50.)
C.addblock('a', rfRLC(Rs=10., Cp=1e-10))
for V, I, A, B in C.Solution(30e6, {'a.s': 1., 'a.p': .5}, Zbase=20.).values():
    close(A, (V + 20 * I) / 2)
''')

bug('c12-deep-nodes', 'C12', 'rfCircuit.py',
    [("snodesleft = [node.split('.',1)[-1] for node in nodesleft ",
      "snodesleft = [node.split('.')[-1] for node in nodesleft ")],
    'asking for particular nodes inside a nested circuit',
    'the requested nodes of nested circuits are not found', '''
from pyRFtk import rfCircuit, rfRLC
I = rfCircuit()
I.addblock('r', rfRLC(Rs=10.))
I.addblock('c', rfRLC(Cp=1e-10))
I.connect('r.p', 'c.s')
M = rfCircuit()
M.addblock('i', I)
C = rfCircuit()
C.addblock('m', M)
E = {p: 1. for p in ['m.i.r.s', 'm.i.c.p']}
C.getS(30e6)
E = {p: 1. for p in C.ports}
a, b = C.Solution(30e6, E), C.Solution(30e6, E, nodes=['m.i.r.p'])
close(a['m.i.r.p'], b['m.i.r.p'])
''')

bug('c13-nested-position', 'C13', 'rfCircuit.py',
    [("                x = relpos + self.getpos(w[2:])\n",
      "                x = self.getpos(w[2:])\n")],
    'a circuit nested at a position other than 0',
    'the nodes of the nested circuit are listed at positions relative to it', '''
from pyRFtk import rfCircuit, rfRLC
I = rfCircuit(Id='I')
I.addblock('r', rfRLC(Rs=10.), relpos=.5)
I.addblock('c', rfRLC(Cp=1e-10), relpos=.5)
I.connect('r.p', 'c.s')
C = rfCircuit()
C.addblock('i', I, relpos=2.)
C.getS(30e6)
V = C.maxV(30e6, {p: 1. for p in C.ports}, Id='top')[2]
close(V['top']['i']['r.p'][0], [2.5])
''')

bug('c13-similar-names', 'C13', 'rfCircuit.py',
    [("blkports = f'->{blkID}.'", "blkports = f'->{blkID}'")],
    'two blocks of which the name of one starts with the name of the other',
    'a block is asked for its maximum with the excitation of another block', '''
from pyRFtk import rfCircuit, rfRLC
def vmax(a, b):
    C = rfCircuit()
    C.addblock(b, rfRLC(Rs=10.))
    C.addblock(a, rfRLC(Ls=1e-7))
    C.connect(a + '.p', b + '.s')
    C.terminate(b + '.p', Z=5.)
    return C.maxV(30e6, {a + '.s': 1.}, Id='top')[2]['top'][a][1]
close(vmax('x', 'y'), vmax('R', 'R1'))
''')
