bug('c05-taper-position', 'C05', 'resolveTLparams.py',
    [("return self.ID(w,x) * np.exp(self.Z0TL(w,x)/(eta0coax*self.etar(w,x)))",
      "return self.ID(w,x) * np.exp(self.Z0TL(w)/(eta0coax*self.etar(w,x)))")],
    'the outer diameter of a line given by its inner diameter and an impedance that varies '
    'along the line',
    'the outer diameter is that at the beginning of the line', '''
from pyRFtk.resolveTLparams import TLresolver
R = TLresolver(L=1., ID=.1, Z0TL=lambda x: 30. + 20. * x, epsr=1.)
w = 2 * np.pi * 5e7
close(R.OD(w, 0.), TLresolver(L=1., ID=.1, Z0TL=30., epsr=1.).OD(w, 0.))
close(R.OD(w, 1.), TLresolver(L=1., ID=.1, Z0TL=50., epsr=1.).OD(w, 0.))
''')

bug('c13-moved-line', 'C13', 'rfTRL.py',
    [("self.xpos = [self.xpos[0], self.L + self.xpos[0]]", "self.xpos = [0., self.L]")],
    'a line that was given a position, after its length was changed',
    'the line is back at position 0', '''
from pyRFtk import rfCircuit, rfTRL
def make(L):
    C = rfCircuit(Zbase=30.)
    C.addblock('a', rfTRL(L=L, Z0TL=20., Zbase=30., xpos=[2., 2. + L]))
    C.terminate('a.2', Z=10.)
    return C
C, D = make(1.), make(1.5)
C.set('a.L', 1.5)
E = {'a.1': 1.}
v, w = C.maxV(5e7, E, Id='t')[2]['t']['a'], D.maxV(5e7, E, Id='t')[2]['t']['a']
close(v[0], w[0])
close(np.abs(v[1]), np.abs(w[1]))
''')

bug('c15-two-new-ports', 'C15', 'rfCircuit.py',
    [("self.M[-2, len(self.waves)-1] = -1", "self.M[-2, -1] = -1"),
     ("self.M[-1, len(self.waves)-2] = -1", "self.M[-1, -2] = -1")],
    'deembedding with two or more new ports in one call',
    'both deembedded ports are tied to the last of the new ports', '''
from pyRFtk import rfCircuit, rfBase
A = np.array([[.1, .6], [.6, -.2]])
def fix():
    return rfBase(Ss=[A], fs=[1e6], ports=['i', 'e'], Zbase=50.)
X = np.array([[.2, .3j], [.3j, -.1]])
C = rfCircuit(Zbase=50.)
C.addblock('l', fix())
C.addblock('x', X, ports=['l', 'r'])
C.addblock('r', fix())
C.connect('l.i', 'x.l')
C.connect('x.r', 'r.i')
T = C.getS(1e6)
k = [C.ports.index(p) for p in ('l.e', 'r.e')]
D = rfCircuit(Zbase=50.)
D.addblock('T', rfBase(Ss=[T[k, :][:, k]], fs=[1e6], ports=['l', 'r'], Zbase=50.))
D.addblock('l', fix())
D.addblock('r', fix())
D.deembed([('l.i', 'L'), ('r.i', 'R')], [('l.e', 'T.l'), ('r.e', 'T.r')])
S = D.getS(1e6)
k = [D.ports.index(p) for p in ('L', 'R')]
close(S[k, :][:, k], X)
''')

bug('c20-tabs', 'C20', 'ReadTSF.py',
    [("for s in aline.split('!',1)[0].split()]",
      "for s in aline.split('!',1)[0].strip().split(' ') if s]")],
    'a touchstone of which the numbers are separated by tabs',
    'the text is refused', '''
from pyRFtk import ReadTSF
t = '# MHz S RI R 50\\n10\\t.1\\t.2 .3 .4\\t.3 .4 .5 .6\\n'
r = ReadTSF(t, Zbase=50., funit='Hz')
close(r['Ss'][0], [[.1 + .2j, .3 + .4j], [.3 + .4j, .5 + .6j]])
''')

bug('c21-written-twice-converted', 'C21', 'rfBase.py',
    [("            Ss = self.getS(fs)\n", "            Ss = self.getS(fs, Zbase=Zbase)\n")],
    'tsf2str with given frequencies and another reference impedance',
    'the matrices are converted from the own impedance though they are on the other one', '''
from pyRFtk import rfBase, ReadTSF, ConvertGeneral
S = np.array([[.3, .4j], [.4j, -.2]])
o = rfBase(Ss=[S], fs=[1e6], ports=['a', 'b'], Zbase=20.)
t = o.tsf2str(fs=[1e6], Zbase=80.)
r = ReadTSF(t, Zbase=20., funit='Hz')
close(np.round(r['Ss'][0], 5), np.round(S, 5))
''')

bug('c22-flags-shared', 'C22', 'rfCircuit.py',
    [("self.f, self.S, self.flags = f, M, flags.copy()", "self.f, self.S, self.flags = f, M, flags")],
    'a dict of flags that is changed between two evaluations at the same frequency',
    'the circuit does not notice that the flags have changed', '''
from pyRFtk import rfGTL, rfCircuit
with open('x.s2p', 'w') as f:
    f.write('# MHz S RI R 50\\n' + ''.join('%d .5 0 .25 0 .25 0 0 .5\\n' % k for k in (40, 50, 60)))
with open('x.mod', 'w') as f:
    f.write(repr({'VTL': {'Portnames': ['a', 'b'], 'sNp': 'x.s2p', 'GTL': {
        'A': {'ports': ['a', 'T'], 'L': .25, 'Z': 30.},
        'B': {'ports': ['T', 'b'], 'L': .125, 'Z': 20.}}}}))
C = rfCircuit(Zbase=50.)
C.addblock('G', rfGTL('x.mod', objkey='VTL', Zbase=50.), ports=['x', 'y'])
F = dict(sNp=True)
T = C.getS(50e6, flags=F)
F['sNp'] = False
S = C.getS(50e6, flags=F)
D = rfCircuit(Zbase=50.)
D.addblock('G', rfGTL('x.mod', objkey='VTL', Zbase=50.), ports=['x', 'y'])
close(S, D.getS(50e6, flags=dict(sNp=False)))
''')

bug('c25-inner-sharing', 'C25', 'rfCircuit.py',
    [("subblockobj = self.blocks[name]['object'].copy()",
      "subblockobj = self.blocks[name]['object']")],
    'replacing a block inside a circuit that is used elsewhere too',
    'the circuit that was added (and all others that contain it) changes', '''
from pyRFtk import rfCircuit, rfRLC
S = rfCircuit(Zbase=50.)
S.addblock('a', rfRLC(Rs=10.))
S.addblock('b', rfRLC(Rs=20.))
S.connect('a.p', 'b.s')
W = S.getS(1e6)
C = rfCircuit(Zbase=50.)
C.addblock('I', S)
C.addblock('I.a', rfRLC(Rs=500.))
C.getS(2e6)
S.getS(2e6)
close(S.getS(1e6), W)
close(S.blocks['a']['object'].Rs, 10.)
''')

bug('c25-model-blocks', 'C25', 'rfGTL.py',
    [("other.__dict__[attr] = deepcopy(val)",
      "other.__dict__[attr] = val if attr == 'blocks' else deepcopy(val)")],
    'a copy of a transmission line model in which a value is changed',
    'the original is changed too', '''
from pyRFtk import rfGTL
with open('x.mod', 'w') as f:
    f.write(repr({'VTL': {'Portnames': ['a', 'b'], 'GTL': {
        'A': {'ports': ['a', 'T'], 'L': .25, 'Z': 30.}, 'r': {'ports': ['T', 'b'], 'Rs': 5.}}}}))
o = rfGTL('x.mod', objkey='VTL', Zbase=20.)
S = o.getS(3e7)
c = o.copy()
c.set(**{'r.Rs': 70.})
c.getS(3e7)
o.getS(4e7)
close(o.getS(3e7), S)
''')

bug('c29-near-frequency', 'C29', 'rfBase.py',
    [("np.where(self.fs == f)[0]", "np.where(np.isclose(self.fs, f))[0]")],
    'a table of which two frequencies differ by less than 1e-5 of their value',
    'the matrix of the other frequency is returned', '''
from pyRFtk import rfBase
o = rfBase(Ss=[[[.1]], [[.5]]], fs=[50e6, 50e6 + 100.], Zbase=50.)
close(o.getS(50e6), [[.1]])
close(o.getS(50e6 + 100.), [[.5]])
''')

bug('c30-imaginary-lost', 'C30', 'printMatrices.py',
    [("np.abs(M[k1, k2]) < 1e-7", "np.abs(np.real(M[k1, k2])) < 1e-7")],
    'an entry without real part in a matrix printed with the zeros marked',
    'the entry is printed as a zero', '''
from pyRFtk.printMatrices import strM
t = strM(np.array([[.25j, 1.], [0., .5]]), printzeros='.')
print(t)
if '25' not in t or '.  ' not in t + '  ':
    sys.exit(1)
''')

bug('c32-sorted-frequencies', 'C32', 'rfBase.py',
    [("[self.get1S(fk) for fk in fs]", "[self.get1S(fk) for fk in np.unique(fs)]")],
    'several frequencies that are not in increasing order',
    'the matrices are in the order of the frequencies instead of the order asked for', '''
from pyRFtk import rfBase
o = rfBase(Ss=[[[.1]], [[.5]], [[.7]]], fs=[1e6, 2e6, 3e6], Zbase=50.)
close(o.getS([1e6, 2e6]), [[[.1]], [[.5]]])
close(o.getS([3e6, 1e6, 2e6]), [[[.7]], [[.1]], [[.5]]])
''')

bug('c33-maximum-reference', 'C33', 'rfBase.py',
    [("S = self.getS(f, Zbase=Zbase, **kwargs)", "S = self.getS(f, **kwargs)")],
    'the maximum voltage for waves given on another impedance than that of the object',
    'the waves are taken on the impedance of the object', '''
from pyRFtk import rfBase, ConvertGeneral
S = np.array([[.3, .4j], [.4j, -.2]])
o = rfBase(Ss=[S], fs=[1e6], ports=['a', 'b'], Zbase=20.)
p = rfBase(Ss=[ConvertGeneral(80., S, 20.)], fs=[1e6], ports=['a', 'b'], Zbase=80.)
E = dict(a=1., b=.5j)
close(o.maxV(1e6, E, 20.)[0], o.maxV(1e6, E)[0])
close(o.maxV(1e6, E, 80.)[0], p.maxV(1e6, E)[0])
''')

bug('c34-closest-segment', 'C34', 'plotVSWs.py',
    [("""                        x1, U1 = x2, U2
                        if ndist2 < curdist2:
                            curdist2""", """                        if ndist2 < curdist2:
                            x1, U1 = x2, U2
                            curdist2""")],
    'a pointer that is not closer to a part of a line than to the one before',
    'the distance is taken from a chord that is not drawn', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.backend_bases import MouseEvent
from pyRFtk import plotVSWs
def at(x, y):
    px, py = ax.transData.transform((x, y))
    e = MouseEvent('motion_notify_event', fig.canvas, px, py)
    fig.canvas.callbacks.process('motion_notify_event', e)
    t = [a for a in ax.texts if a.get_visible()][-1]
    return t.get_text().split('\\n')[0], t.xy
plotVSWs({'C': {'A': ([0., 1., 1.2, 2.], [0., 3.9, 0., 4.])}})
fig = plt.gcf()
ax = fig.get_axes()[0]
ax.set_xlim(0., 5.)
ax.set_ylim(0., 5.)
close(at(.5, 1.95)[1], (.5, 1.95))
q = (.4 * .8 + 4. * 4) / 16.64
close(at(1.6, 4.)[1], (1.2 + .8 * q, 4 * q))
''')

bug('c34-level', 'C34', 'plotVSWs.py',
    [("any([x != xs[0] for x in xs]) or any([v != absV[0] for v in absV])",
      "xs[-1] != xs[0]")],
    'an element without length that has different voltages at its ends',
    'its voltages are not drawn', '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from pyRFtk import plotVSWs
plotVSWs({'C': {'A': ([0., 1.], [1., 2.]), 'R': ([1., 1.], [2., 5.])}})
L = plt.gcf().get_axes()[0].lines
print(L)
if len(L) != 2:
    sys.exit(1)
close(L[1].get_ydata(), [2., 5.])
''')
