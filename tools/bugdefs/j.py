TO = 'marxs/design/tolerancing.py'
OG = 'marxs/reduction/ogip.py'
OS = 'marxs/reduction/osip.py'

B('c20-move-in-place', 'C20', [(TO,
  "        e.geometry.pos4d_orig = e.geometry.pos4d.copy()",
  "        e.geometry.pos4d_orig = e.geometry.pos4d"), (TO,
  "    e.geometry.pos4d = move @ e.geometry.pos4d_orig",
  "    e.geometry.pos4d[...] = move @ e.geometry.pos4d_orig")], '''
import numpy as np
from marxs.optics import FlatDetector
from marxs.design.tolerancing import moveelem
d = FlatDetector(position=[1, 2, 3])
moveelem(d, dx=1)
moveelem(d, dx=1)
assert np.allclose(d.geometry['center'], [2, 2, 3, 1])
''', 'an element is moved twice', 'moves of one element accumulate')

B('c20-global-axes', 'C20', [(TO,
  """    e.uncertainty = affines.compose([dx, dy, dz],
                                    euler.euler2mat(rx, ry, rz, 'sxyz'),""",
  """    e.uncertainty = affines.compose([dx, dy, dz],
                                    euler.euler2mat(rx, ry, rz, 'rxyz'),""")], '''
import numpy as np
from transforms3d.axangles import axangle2mat
from marxs.optics import FlatDetector
from marxs.simulator import Parallel
from marxs.design.tolerancing import moveglobal
p = Parallel(elem_class=FlatDetector, elem_pos={'position': [[1, 2, 3]]})
moveglobal(p, rx=.3, ry=.4)
want = axangle2mat([0, 1, 0], .4) @ axangle2mat([1, 0, 0], .3) @ [1, 2, 3]
assert np.allclose(p.elements[0].geometry['center'][:3], want)
''', 'rotations about more than one axis at once',
  'a group is rotated in the wrong order of axes')

B('c20-draw-shape', 'C20', [('marxs/design/uncertainties.py',
  "    rotation = np.random.normal(size=(n, 3), loc=rot_offset, scale=angle_xyz)\n",
  "    rotation = rot_offset + np.random.normal(size=(n, 1)) * np.array(angle_xyz)\n")], '''
import numpy as np
from transforms3d.euler import mat2euler
from marxs.design.uncertainties import generate_facet_uncertainty
m = generate_facet_uncertainty(2000, (0, 0, 0), (.01, .01, .01))
a = np.array([mat2euler(x[:3, :3], 'sxyz') for x in m])
assert abs(np.corrcoef(a[:, 0], a[:, 1])[0, 1]) < .2
assert abs(np.corrcoef(a[:, 0], a[:, 2])[0, 1]) < .2
''', 'random rotations about more than one axis', 'the angles of an element are not independent')

B('c21-edges-reverse', 'C21', [(OG,
  "        sort_energies = np.argsort(energy_edges)\n",
  "        # wavelengths increase when energies decrease\n        sort_energies = np.arange(len(energy_edges))[::-1]\n")], '''
import numpy as np
import astropy.units as u
from marxs.reduction.ogip import RMF
for e in [[1., 2., 3.] * u.keV, [4., 5., 6.] * u.Angstrom]:
    b = RMF.ebounds_from_edges(e)
    assert np.all(np.asarray(b['E_MIN']) < np.asarray(b['E_MAX']))
''', 'edges of channels given as increasing energies', 'limits of channels are swapped')

B('c21-row-upper', 'C21', [(OG,
  "            (energy < self.matrix['ENERG_HI'])\n",
  "            (energy <= self.matrix['ENERG_HI'])\n")], '''
import numpy as np
import astropy.units as u
from marxs.reduction.ogip import RMF, ColOrKeyTable
m = ColOrKeyTable({'ENERG_LO': [1., 2.] * u.keV, 'ENERG_HI': [2., 3.] * u.keV})
r = object.__new__(RMF)
r.matrix = m
row = r.row(2 * u.keV)
assert float(row['ENERG_LO'] / (1 * u.keV)) == 2.
''', 'an energy exactly on the edge of two rows', 'the row below is used')

B('c22-revert-keyword', 'C22', [(OS,
  """        try:
            arf['SPECRESP'] = arf['SPECRESP'] / arf['OSIPFAC']
            logger.info(f'{inputarf} already has OSIP applied, reverting ' +
                        'before applying new OSIP.')
        except KeyError:
            pass
""", """        if 'OSIPFAC' in arf.colnames:
            arf['SPECRESP'] = arf['SPECRESP'] / arf['OSIPFAC']
            logger.info(f'{inputarf} already has OSIP applied, reverting ' +
                        'before applying new OSIP.')
""")], '''
import tempfile, os
import numpy as np
import astropy.units as u
from marxs.reduction import ogip, osip

class O(osip.OSIPBase):
    def osip_factor(self, e, o1, o2):
        return np.array([.5, .25])

arf = ogip.ARF({'ENERG_LO': [1., 2.] * u.keV, 'ENERG_HI': [2., 3.] * u.keV,
                'SPECRESP': [10., 20.] * u.cm**2})
arf['OSIPFAC'] = .5
arf.meta['ORDER'] = 1
arf.meta['TELESCOP'] = 'a'
arf.meta['INSTRUME'] = 'a'
arf.meta['FILTER'] = 'a'
ogip.ARF.read = staticmethod(lambda *a, **k: arf)
ogip.ARF.write = lambda self, *a, **k: None
with tempfile.TemporaryDirectory() as d:
    O(None).apply_osip('x', d, 1)
assert np.allclose(arf['SPECRESP'].to(u.cm**2).value, [10., 10.]), arf['SPECRESP']
''', 'an area to which the same sorting fraction was applied in all bins, so that it is a keyword',
  'the earlier sorting is not taken out')

B('c22-same-place', 'C22', [(OS,
  "        osip_fac = self.osip_factor(energies / m * order, order, m)\n",
  "        osip_fac = self.osip_factor(energies, order, m)\n")], '''
import tempfile
import numpy as np
import astropy.units as u
from marxs.reduction import ogip, osip
seen = []

class O(osip.OSIPBase):
    def osip_factor(self, e, o1, o2):
        seen.append(e.to(u.keV).value)
        return np.array([.5, .25])

arf = ogip.ARF({'ENERG_LO': [1., 2.] * u.keV, 'ENERG_HI': [2., 3.] * u.keV,
                'SPECRESP': [10., 20.] * u.cm**2})
arf.meta['ORDER'] = 4
ogip.ARF.read = staticmethod(lambda *a, **k: arf)
ogip.ARF.write = lambda self, *a, **k: None
with tempfile.TemporaryDirectory() as d:
    O(None).apply_osip('x', d, 5)
assert np.allclose(seen[0], [1.5 * 5 / 4, 2.5 * 5 / 4]), seen
''', 'sorting of photons of one order into another order',
  'the fraction is taken for another place on the detector')
