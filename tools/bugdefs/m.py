DI = 'marxs/missions/chandra/dither.py'
AC = 'marxs/missions/chandra/det_acis.py'
FH = 'marxs/missions/chandra/fitsheaders.py'

B('c26-roll-nominal', 'C26', [(DI,
  "        roll = nominal[2] + dither[:, 2]\n",
  "        roll = nominal[2] + (dither[:, 2] - dither[0, 2])\n")], '''
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from marxs.missions.chandra import LissajousDither
p = LissajousDither(coords=SkyCoord(30, 30, unit='deg'), roll=10 * u.deg,
                    DitherAmp=[0, 0, 5] * u.deg, DitherPeriod=[1000, 1000, 1000] * u.s,
                    DitherPhase=[0, 0, np.pi / 2] * u.rad)
assert np.allclose(np.rad2deg(p.pointing(np.array([0., 500.])))[:, 2], [15, 5])
''', 'roll dither with a phase', 'roll is measured from the first time asked for')

B('c26-offset-frame', 'C26', [(DI,
  "        phi = nominal[0] + dither[:, 0]\n",
  "        phi = nominal[0] + dither[:, 0] * np.cos(nominal[1])\n"),
  (DI, "self.DitherPhase)  / np.array([np.cos(self.coords.icrs.dec), 1., 1.])",
   "self.DitherPhase)  / np.array([np.cos(self.coords.icrs.dec)**2, 1., 1.])")], '''
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from marxs.missions.chandra import LissajousDither
p = LissajousDither(coords=SkyCoord(30, 60, unit='deg'), DitherAmp=[1, 0, 0] * u.deg,
                    DitherPhase=[np.pi / 2, 0, 0] * u.rad)
assert np.allclose(p.dither(np.array([0.])).to(u.deg).value[0, 0], 2)
''', 'offsets that are used on their own', 'dither offsets in right ascension are too large')

B('c26-offset-sign', 'C26', [(AC,
  "            A[:3, 3] -= self.detoffset\n", "            A[:3, 3] += self.detoffset\n"),
  (AC, "            A[:3, 3] += self.aimpoint\n", "            A[:3, 3] += np.asarray(self.aimpoint)\n")], '''
import numpy as np
from marxs.missions.chandra import ACIS, AIMPOINTS
a = ACIS(chips=[7], aimpoint=AIMPOINTS['ACIS-S'])
b = ACIS(chips=[7], aimpoint=AIMPOINTS['ACIS-S'], DetOffsetY=5)
d = b.elements[0].pos4d[:3, 3] - a.elements[0].pos4d[:3, 3]
assert np.allclose(d, [0, 0, -5]), d
''', 'a detector offset', 'the detector moves in the wrong direction while the header is right')

B('c26-sky-order', 'C26', [(FH,
  "    header['TCRPX{0}'.format(indy)] = odet[1]\n",
  "    header['TCRPX{0}'.format(indy)] = odet[1]\n    header.update({k: header[k] for k in ('TCRVL{0}'.format(indx), 'TCRVL{0}'.format(indy))})\n"),
  (FH, "    indx = colnamesup.index('X') + 1\n", "    indx = [i for i, c in enumerate(colnamesup) if c.endswith('X')][-1] + 1\n")], '''
import os, tempfile
import numpy as np
import astropy.units as u
from astropy.table import Table
from marxs.missions.chandra.fitsheaders import add_evt_column_header
t = Table({c: [1.] for c in ('x', 'y', 'detx', 'dety')})
h = {'INSTRUME': ('ACIS', ''), 'RA_PNT': (1, ''), 'DEC_PNT': (2, '')}
add_evt_column_header(h, t)
assert h.get('TCTYP1') == 'RA---TAN', h
''', 'a column whose name ends on x behind the sky coordinates',
  'the coordinate system is attached to another column')

B('c26-asol-meta', 'C26', [(DI,
  "        asol['time'] += asol.meta['TSTART'][0]\n",
  "        asol['time'] += asol.meta['TSTART'][0] + 0.5 * timestep\n")], '''
import os, tempfile
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import Table
from marxs.missions.chandra import LissajousDither
p = LissajousDither(coords=SkyCoord(30, 30, unit='deg'))
t = Table({'time': [1.]})
t.meta['EXPOSURE'] = (20., '')
t.meta['DATE-OBS'] = ('2005-02-03T04:05:06', '')
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.fits')
    p.write_asol(t, f, timestep=2.)
    a = Table.read(f)
    assert np.allclose(a['time'] - a.meta['TSTART'], np.arange(0, 20, 2.), atol=1e-3), a['time'] - a.meta['TSTART']
''', 'long time steps', 'times of the aspect solution are not those of the directions')
