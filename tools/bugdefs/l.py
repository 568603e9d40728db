SC = 'marxs/optics/scatter.py'

B('c24-centre-inverse', 'C24', [(SC,
  "        center = self.pos4d[:-1, -1]\n        radial = h2e(photons['pos'][intersect].data) - center\n",
  "        center = -np.linalg.inv(self.pos4d)[:-1, -1]\n        radial = h2e(photons['pos'][intersect].data) - center\n")], '''
import numpy as np
import astropy.units as u
from marxs.optics import RadialMirrorScatter
from marxs.utils import generate_test_photons
np.random.seed(0)
m = RadialMirrorScatter(inplanescatter=0.1 * u.rad, position=[0, 4, 0], zoom=[1, 8, 8],
                        orientation=np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]))
p = generate_test_photons(50)
p['pos'] = np.tile(np.array([1., 4., 3., 1.]), (50, 1))
p = m(p)
assert np.std(p['dir'][:, 2]) > 0.01
assert np.allclose(p['dir'][:, 1], 0), p['dir'][:, 1]
''', 'a mirror that is rotated or zoomed and not at the origin',
  'the plane of scattering does not contain the radius from the centre of the mirror')

B('c24-half-turn', 'C24', [(SC,
  "            angle2 = np.random.uniform(size=n) * 2 * np.pi\n",
  "            # scattering angles can be negative, half a turn covers all directions\n            angle2 = np.random.uniform(size=n) * np.pi\n")], '''
import numpy as np
import astropy.units as u
from marxs.optics import RandomGaussianScatter
from marxs.utils import generate_test_photons
np.random.seed(0)
m = RandomGaussianScatter(scatter=lambda p, i, pos, coos: np.full(i.sum(), 0.1) * u.rad, zoom=5)
p = m(generate_test_photons(400))
y, z = p['dir'][:, 1], p['dir'][:, 2]
for a in (y, -y, z, -z):
    assert (a > 0.05).sum() > 40
''', 'a function that returns positive angles only', 'rays are scattered to one side only')

B('c24-perp-original', 'C24', [(SC,
  "            outdir = e2h(np.einsum('...ij,...i->...j', rot, h2e(outdir)), 0)\n        else:",
  "            perpdir = np.einsum('...ij,...i->...j', rot, h2e(photons['dir'][intersect]))\n            outdir = e2h(norm_vector(h2e(outdir) + perpdir - h2e(photons['dir'][intersect])), 0)\n        else:")], '''
import numpy as np
import astropy.units as u
from marxs.optics import RadialMirrorScatter
from marxs.utils import generate_test_photons
np.random.seed(0)
m = RadialMirrorScatter(inplanescatter=0.5 * u.rad, perpplanescatter=0.5 * u.rad)
p = generate_test_photons(50)
p['pos'] = np.tile(np.array([0., 1., 0., 1.]), (50, 1))
p = m(p)
# turned in the plane first, then about the radius (y): y only depends on the first
assert np.allclose(np.abs(p['dir'][:, 1]), np.abs(np.sin(p['inplanescatter'])))
''', 'both angles different from 0 and not small', 'angles of rays are not those of the record')

CG = 'marxs/missions/mitsnl/catgrating.py'

B('c25-support-index', 'C25', [(CG,
  "        ind = intersect.nonzero()[0][l1]\n", "        ind = l1.nonzero()[0]\n")], '''
import numpy as np
import astropy.units as u
from marxs.optics import OrderSelector
from marxs.missions.mitsnl.catgrating import L1
from marxs.utils import generate_test_photons
g = L1(order_selector=OrderSelector([3]), zoom=5, l1_dims={
    'period': 5 * u.um, 'barwidth': 4.999999 * u.um, 'bardepth': 4 * u.um})
p = generate_test_photons(3)
p['pos'][0] = [1, 77, 0, 1]
p['dir'][1] = [-.8, .6, 0, 0]
p['polarization'][1] = [.6, .8, 0, 0]
d = p['dir'].data.copy()
assert np.allclose(g(p)['dir'], d)
''', 'photons of different directions, some of which miss the grating',
  'rays through the bars get the direction of other photons')

B('c25-quality-unit', 'C25', [(CG,
  "        self.factor = np.exp(- (2 * np.pi * qualityfactor['sigma'] /\n                                qualityfactor['d'])**2)\n",
  "        self.factor = np.exp(- (2 * np.pi * qualityfactor['sigma'].value /\n                                qualityfactor['d'].value)**2)\n")], '''
import numpy as np
import astropy.units as u
from marxs.missions.mitsnl.catgrating import QualityFactor
a = QualityFactor(qualityfactor={'d': 0.2 * u.mm, 'sigma': 1.75 * u.um})
b = QualityFactor(qualityfactor={'d': 200 * u.um, 'sigma': 1.75 * u.um})
assert np.isclose(a.factor, b.factor)
''', 'values in different units', 'efficiencies are zero')

B('c25-groove-mirrored', 'C25', [(CG,
  "                               'groove_angle': np.pi / 2. + groove_angle},",
  "                               'groove_angle': np.pi / 2. - groove_angle},")], '''
import numpy as np
from marxs.optics import OrderSelector
from marxs.missions.mitsnl.catgrating import CATL1L2Stack
s = CATL1L2Stack(order_selector=OrderSelector([1]), groove_angle=0.3)
a = s.elements[0].e_groove_coos(np.zeros((1, 2)))[0][0]
b = s.elements[2].e_groove_coos(np.zeros((1, 2)))[0][0]
assert np.isclose(a @ b, 0)
''', 'gratings with a groove angle', 'the support is not perpendicular to the bars')
