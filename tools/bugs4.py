bug('c31-coupler-off-centre', 'C31', 'rfCoupler.py',
    [("1j * self.kc * sinblc / N", "1j * self.kc / N")],
    'a coupler of given length at a frequency where it is not a quarter of a wavelength long',
    'more power comes out of the coupler than goes in', '''
from pyRFtk import rfCoupler
C = rfCoupler(kcdB=6., Lc=1., Zbase=50.)
for f in (299792458. / 4, 5e7, 2e7):
    S = C.getS(f)
    close(S.conj().T @ S, np.eye(4), f)
''')

bug('c17-line-phase-order', 'C17', 'rfTRL.py',
    [("f2 = lambda f: interp1d(fs, d[1], axis=0, kind=min(len(fs)-1,3),",
      "f2 = lambda f: interp1d(fs, d[1], axis=0, kind=min(len(fs)-1,1),")],
    'a line given by a touchstone of three or more frequencies',
    'the phase (imaginary part) between the frequencies is interpolated linearly', '''
from pyRFtk import rfTRL, rfObject
T = "\\n".join(["# MHz S RI R 50", "10 .1 .2 .3 .4 .3 .4 .5 .6", "20 .2 .6 .1 .3 .1 .3 .4 .1",
               "30 .3 .1 .2 .9 .2 .9 .1 .1"])
S = np.array([[.1 + .2j, .3 + .4j], [.3 + .4j, .5 + .6j]])
R = np.array([[.2 + .6j, .1 + .3j], [.1 + .3j, .4 + .1j]])
Q = np.array([[.3 + .1j, .2 + .9j], [.2 + .9j, .1 + .1j]])
L = rfTRL(L=1., Z0TL=50., Zbase=50., sNp=T)
close(L.getS(2e7), R)
close(L.getS(1.5e7), .375 * S + .75 * R - .125 * Q)
''')
