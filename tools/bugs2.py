bug('c08-dc-arc', 'C08', 'rfArcObj.py',
    [("        return Ss\n", "        return Ss if f else np.array([[1.+0j]])\n")],
    'an arc evaluated at zero frequency',
    'the arc is an open circuit at zero frequency instead of a short circuit', '''
from pyRFtk import rfArcObj
close(rfArcObj(20e-9).getS(0.), [[-1.]])
''')

bug('c14-last-change', 'C14', 'rfCircuit.py',
    [("modified |= obj.set(**val)", "modified = obj.set(**val)")],
    'several changes in one set, the last of which gives the value the block already has',
    'the S-matrix of before the changes is returned', '''
from pyRFtk import rfCircuit, rfRLC
C = rfCircuit()
C.addblock('a', rfRLC(Rs=10.))
C.addblock('b', rfRLC(Rs=20.))
C.connect('a.p', 'b.s')
C.getS(1e6)
C.set(('b', {'Rs': 20.}), ('a', {'Rs': 30.}))
S1 = C.getS(1e6)
D = rfCircuit()
D.addblock('a', rfRLC(Rs=30.))
D.addblock('b', rfRLC(Rs=20.))
D.connect('a.p', 'b.s')
close(S1, D.getS(1e6))
C.set(('a', {'Rs': 30.}), ('b', {'Rs': 50.}))
D.set(('a', {'Rs': 30.}), ('b', {'Rs': 50.}))
close(C.getS(1e6), D.getS(2e6))
''')

bug('c16-sticky-reversal', 'C16', 'rfCircuit.py',
    [("""        for node in nodes:
            iA, iB = 2, 3 
            if node""", """        iA, iB = 2, 3 
        for node in nodes:
            if node""")],
    'a reversed node that is not the last of the nodes',
    'all nodes after a reversed one are also reversed', '''
from pyRFtk import rfCircuit, rfRLC
def make():
    C = rfCircuit()
    C.addblock('a', rfRLC(Rs=10., Cp=1e-10))
    C.addblock('b', rfRLC(Rs=20., Ls=1e-8))
    C.addblock('c', rfRLC(Rp=20., Ls=1e-8))
    C.connect('a.p', 'b.s', 'x')
    C.connect('b.p', 'c.s')
    return C
S = make().Get_internalSmatrix(3e7, ['<c.s', 'a.s'])
R = make().Get_internalSmatrix(3e7, ['a.s', '<c.s'])
close(S, R[::-1, ::-1])
''')

bug('c17-unwrap-axis', 'C17', 'rfObject.py',
    [("A = np.unwrap(np.angle(self.Ss),axis=0)", "A = np.unwrap(np.angle(self.Ss))")],
    'magnitude-angle interpolation where the angle passes 180 degrees between frequencies',
    'the angle is interpolated the wrong way round', '''
from pyRFtk import rfObject
o = rfObject(ports=['a'], interp='MA', interpkws=dict(kind=1))
for f, p in ((1e6, 170.), (2e6, -170.)):
    o.setS(f, [[.5 * np.exp(1j * np.deg2rad(p))]])
close(o.getS(1.5e6), [[-.5]])
''')

bug('c18-inverse-permutation', 'C18', 'rfObject.py',
    [("self.Ss = self.Ss[:,:,idxs][:,idxs,:]",
      "self.Ss[:,idxs,:] = self.Ss[:,:,idxs].copy()")],
    'three or more ports put in a cyclic order',
    'rows and columns are permuted differently', '''
from pyRFtk import rfObject
o = rfObject(ports=['a', 'b', 'c'])
S = np.arange(9).reshape((3, 3)) / 20. + 0j
o.setS(1e6, S)
o.sortports(['b', 'c', 'a'])
close(o.getS(1e6), S[np.ix_([1, 2, 0], [1, 2, 0])])
''')

bug('c19-tapered', 'C19', 'rfObject.py',
    [("bk_new[0,kp] = bk_new[0,kp] * Strl[0,1] + Strl[1,1]",
      "bk_new[0,kp] = bk_new[0,kp] * Strl[0,1] + Strl[0,0]")],
    'a port extended with a line that is not symmetric (tapered)',
    'the reflection of the line is that of its other end', '''
from pyRFtk import rfObject, rfTRL
f = 50e6
kw = dict(L=1., LTL=[200e-9, 600e-9], CTL=100e-12)
o = rfObject(ports=['a'], Zbase=50., funit='Hz')
o.setS(f, [[.5 + .2j]])
o.deembed({'a': kw})
T = rfTRL(Zbase=50., **kw).getS(f)
g = .5 + .2j
close(o.getS(f), [[T[1, 1] + T[1, 0] * g * T[0, 1] / (1 - g * T[0, 0])]])
''')

bug('c20-continued-impedance', 'C20', 'ReadTSF.py',
    [("elif Zline or (lastline == 'impedance' and not aline):", "elif Zline:")],
    'port impedances that continue on a second line',
    'the file is refused', '''
from pyRFtk import ReadTSF
n = 5
S = np.arange(n * n).reshape((n, n)) / 50.
t = '# MHz S RI\\n'
for k in range(n):
    t += ('10. ' if not k else '   ') + ' '.join('%.4f 0.' % x for x in S[k]) + '\\n'
t += '! Gamma ! ' + ' '.join(['0. 1.'] * 4) + '\\n! 0. 1.\\n'
t += '! Port Impedance ' + ' '.join(['%d. 0.' % (20 + k) for k in range(4)])
t += '\\n! 24. 0.\\n'
r = ReadTSF(t, Zbase=50.)
a = np.array(r['Zc'])
close(a, [[20., 21., 22., 23., 24.]])
''')

bug('c21-row-order', 'C21', 'WriteTSF.py',
    [("dij = d[kr,kc]", "dij = d[kr,kc] if nports < 4 else d[kc,kr]")],
    'a network of four or more ports which is not reciprocal',
    'the written matrix is transposed', '''
from pyRFtk import WriteTSF, ReadTSF, rfObject
S = np.arange(16).reshape((4, 4)) / 40. + 0j
o = rfObject(ports=list('abcd'), Zbase=50.)
o.setS(1e6, S)
t = WriteTSF(o, None, fs=[1e6], tsf_format='MHZ S RI R 50')
r = ReadTSF(t)
if np.max(np.abs(r['Ss'][0] - S)) > 1e-6:
    print('FAIL', r['Ss'][0])
    sys.exit(1)
''')

bug('c21-frequency-digits', 'C21', 'rfBase.py',
    [("m0, dm = 15, 3", "m0, dm = 6, 3")],
    'a frequency that needs more than 6 digits in the unit of the file',
    'the frequencies are rounded', '''
from pyRFtk import rfBase, ReadTSF
o = rfBase(Ss=[np.eye(2) * .5], fs=[12345678.25], Zbase=50.)
r = ReadTSF(o.tsf2str(tfmt='GHz S RI R 50'), funit='Hz')
if abs(r['fs'][0] - 12345678.25) > 1e-3:
    print('FAIL', r['fs'])
    sys.exit(1)
''')

bug('c22-list-units', 'C22', 'rfGTL.py',
    [("tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]",
      "tkwargs[kw] = [v * conv[kw] for v in sorted(tkwargs[kw])]")],
    'a varying line given by decreasing values',
    'the line is tapered the other way round', '''
import os, tempfile
from pyRFtk import rfGTL, rfTRL
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.mod')
    with open(p, 'w') as f:
        f.write("""{'V': {'Portnames': ['a', 'b'], 'GTL': {
            'A': {'ports': ['a', 'b'], 'L': 1., 'LTL': [600., 200.], 'CTL': 100.}}}}""")
    G = rfGTL(p, objkey='V')
T = rfTRL(L=1., LTL=[600e-9, 200e-9], CTL=100e-12)
if np.max(np.abs(G.getS(5e7) - T.getS(5e7))) > 1e-6:
    print('FAIL')
    sys.exit(1)
''')

bug('c23-first-level', 'C23', 'plotVSWs.py',
    [("scaleVSW(val, scale)\n", "scaleVSW(val, np.abs(scale))\n")],
    'a complex or negative scale and a tree of two or more levels',
    'the phase of the scale is lost below the first level', '''
from pyRFtk.plotVSWs import scaleVSW
t = {'a': {'b': ([0., 1.], [1 + 1j, 2.])}}
scaleVSW(t, 2j)
close(t['a']['b'][1], [2j - 2, 4j])
''')

bug('c24-first-maximum', 'C24', 'maxfun.py',
    [("if xy[1] > xymax[1]:", "if xy[1] > ys[idx+1]:")],
    'several maxima of which the last is not the largest',
    'the last local maximum is returned', '''
from pyRFtk import maxfun
x, y = maxfun(np.arange(7.), np.array([0., 5., 5., 0., 1., 1., 0.]))
if not (abs(x - 1.5) < 1e-9 and y >= 5.):
    print('FAIL', x, y)
    sys.exit(1)
''')

bug('c25-shallow-copy', 'C25', 'rfBase.py',
    [("other.__dict__[attr] = copy.deepcopy(val)",
      "other.__dict__[attr] = copy.copy(val)")],
    'a copied line of which the evaluation at the same frequency is used after a change',
    'the copy shares the nested containers of the original', '''
from pyRFtk import rfCircuit, rfTRL, rfRLC
C = rfCircuit()
C.addblock('a', rfRLC(Rs=5.))
C.addblock('b', rfRLC(Rs=7.))
C.connect('a.p', 'b.s')
S = C.getS(1e6)
D = C.copy()
D.addblock('a', rfRLC(Rs=50.))
D.getS(1e6)
C.set('b.Rs', 8.)
E = rfCircuit()
E.addblock('a', rfRLC(Rs=5.))
E.addblock('b', rfRLC(Rs=8.))
E.connect('a.p', 'b.s')
close(C.getS(1e6), E.getS(1e6))
T = rfTRL(L=.5, Z0TL=30.)
V = T.maxV(5e7, {'1': 1., '2': 0.})[0]
U = T.copy()
U.set(L=.25)
U.maxV(5e7, {'1': 1., '2': 0.})
U.TLP.Z0TL = 80.
close(T.getS(5e7), rfTRL(L=.5, Z0TL=30.).getS(5e7))
''')

bug('c27-equal-objects', 'C27', 'rfCircuit.py',
    [("thisid = id(blk['object'])", "thisid = getattr(blk['object'], 'Id', id(blk['object']))")],
    'two different blocks with the same Id',
    'the second block is shown as a reference to the first', '''
from pyRFtk import rfCircuit, rfRLC
C = rfCircuit(Id='C')
C.addblock('a', rfRLC(Rs=5., Id='x'))
C.addblock('b', rfRLC(Rs=7., Id='x'))
C.connect('a.p', 'b.s')
t = C.__str__(2)
if 'Rs = 7' not in t or 'Rs = 5' not in t:
    print('FAIL', t)
    sys.exit(1)
''')

bug('c22-far-end', 'C22', 'rfGTL.py',
    [("positions[p1] = tblock['xpos'] + xp1", "positions[p1] = positions[p] + xp1")],
    'a model whose position is given at the second port of a line that is not the last one',
    'the lines beyond are placed one line length too far', '''
import os, tempfile
from pyRFtk import rfGTL
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.mod')
    with open(p, 'w') as f:
        f.write("""{'V': {'Portnames': ['a', 'b'], 'relpos': {'b': 5.}, 'GTL': {
            'A': {'ports': ['a', 'T'], 'L': 1., 'Z': 30.},
            'B': {'ports': ['T', 'b'], 'L': 2., 'Z': 40.}}}}""")
    G = rfGTL(p, objkey='V')
close([G.blocks['A']['xpos'], G.blocks['B']['xpos']], [2., 3.])
''')

bug('c26-cosmetic-zeros', 'C26', 'rfCircuit.py',
    [("ss = strM(self.S,\n", "ss = strM(self.S.__imul__(np.abs(self.S) > 1e-3),\n")],
    'a small element of the S-matrix while the diagnostics are on',
    'the element is set to zero', '''
from pyRFtk import rfCircuit, rfRLC
from pyRFtk.config import setLogLevel
def make():
    C = rfCircuit()
    C.addblock('a', rfRLC(Rs=.01))
    C.addblock('b', rfRLC(Rs=.02))
    C.connect('a.p', 'b.s')
    return C.getS(1e6)
setLogLevel('CRITICAL')
S = make()
setLogLevel('DEBUG')
T = make()
setLogLevel('CRITICAL')
close(S, T)
''')

bug('c28-replace-then-check', 'C28', 'rfCircuit.py',
    [("""            if len(RFobj) != len(self.blocks[name]['object']):
                raise ValueError(
                    f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
                    f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
            
            #TODO: maybe some other checks are in order / necessary
            
            self.blocks[name]['object'] = RFobj
""", """            oldobj, self.blocks[name]['object'] = self.blocks[name]['object'], RFobj
            if len(RFobj) != len(oldobj):
                raise ValueError(
                    f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
                    f'existing {len(oldobj)}, new {len(RFobj)}')
            
            #TODO: maybe some other checks are in order / necessary
            
""")],
    'replacing a block by one of another size, which is refused, and going on',
    'the refused block is in the circuit', '''
from pyRFtk import rfCircuit, rfRLC
C = rfCircuit()
C.addblock('a', rfRLC(Rs=5.))
C.addblock('b', rfRLC(Rs=7.))
C.connect('a.p', 'b.s')
S = C.getS(1e6)
try:
    C.addblock('a', np.array([[.5]]))
except ValueError:
    pass
close(C.getS(1e6), S)
''')
