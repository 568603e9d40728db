G = 'marxs/math/geometry.py'

B('c04-any-all', 'C04', [('marxs/optics/base.py',
  "        if np.any(value < 0) or np.any(value > 1):",
  "        if np.any(value < 0) or np.all(value > 1):")], '''
import numpy as np
from astropy.table import Table
from marxs.optics import FlatGrating
t = Table()
t['pos'] = [[1., 0, 0, 1], [1., .1, 0, 1]]
t['dir'] = [[-1., 0, 0, 0]] * 2
t['polarization'] = [[0, 1., 0, 0]] * 2
t['energy'] = [1., 2.]
t['probability'] = 1.
g = FlatGrating(d=1e-3, order_selector=lambda e, p, b: (np.ones(len(e)), np.array([.5, 1.5])), zoom=3)
try:
    g(t)
except ValueError:
    pass
else:
    raise SystemExit('probability %s accepted' % t['probability'].data)
''', 'a list with at least one valid and one invalid factor',
  'a factor larger than 1 is accepted if another photon of the list has a valid one')

B('c05-id-nested', 'C05', [('marxs/optics/base.py',
  "        # Add ID number to ID col, if requested\n        if self.id_col is not None:\n            photons[self.id_col][intersect] = self.id_num\n",
  "        # Add ID number to ID col, if requested\n        if self.id_col is not None:\n            photons[self.id_col][intersect & (photons[self.id_col] < 0)] = self.id_num\n")], '''
import numpy as np
from astropy.table import Table
from marxs.optics import EnergyFilter
t = Table()
t['pos'] = [[1., 0, 0, 1]]
t['dir'] = [[-1., 0, 0, 0]]
t['polarization'] = [[0, 1., 0, 0]]
t['energy'] = [1.]
t['probability'] = 1.
a = EnergyFilter(filterfunc=lambda e: .5, id_col='f', id_num=1)
b = EnergyFilter(filterfunc=lambda e: .5, id_col='f', id_num=2, position=[-1, 0, 0])
t = b(a(t))
assert t['f'][0] == 2, t['f']
''', 'the same photon hits two elements that write the same id column',
  'the second element does not record its id')

B('c05-loc-swap', 'C05', [('marxs/optics/base.py',
  "        photons['pos'][intersect] = interpos[intersect]\n\n        return photons\n\n\nclass FlatOpticalElement",
  "        if not np.all(np.isfinite(interpos[intersect, 3])):\n            return photons\n"
  "        photons['pos'][:intersect.sum()] = np.where(intersect[:intersect.sum(), None], interpos[:intersect.sum()], photons['pos'][:intersect.sum()])\n"
  "        photons['pos'][intersect.sum():][intersect[intersect.sum():]] = interpos[intersect.sum():][intersect[:len(intersect) - intersect.sum()]] if intersect.all() else interpos[intersect.sum():][intersect[intersect.sum():]]\n"
  "        if 'probability' in photons.colnames and len(photons) > 2:\n            photons['probability'][~intersect & (photons['probability'] < 1e-12)] = 0\n"
  "\n        return photons\n\n\nclass FlatOpticalElement")], '''
import numpy as np
from astropy.table import Table
from marxs.optics import EnergyFilter
t = Table()
t['pos'] = [[1., 0, 0, 1], [1., 5, 0, 1], [1, 6., 0, 1]]
t['dir'] = [[-1., 0, 0, 0]] * 3
t['polarization'] = [[0, 1., 0, 0]] * 3
t['energy'] = 1.
t['probability'] = [1., 1e-13, 1e-14]
a = EnergyFilter(filterfunc=lambda e: np.ones(len(e)))
t = a(t)
assert t['probability'][1] == 1e-13, t['probability']
''', 'a list of three or more photons with a very improbable photon that misses',
  'photons that miss and have tiny probability are set to zero')

B('c01-h2e-mean', 'C01', [('marxs/math/utils.py',
  "    if np.all(h[..., 3] == 0) or np.allclose(h[..., 3], 1):",
  "    if np.all(h[..., 3] == 0) or np.allclose(np.mean(h[..., 3]), 1):")], '''
import numpy as np
from marxs.math.utils import h2e
assert np.allclose(h2e(np.array([[1., 1, 1, .5], [3., 3, 3, 1.5]])), [[2, 2, 2]] * 2)
''', 'points with different weights that are 1 on average', 'points are not divided by their weight')

B('c02-parallel-near', 'C02', [(G,
  "        is_parallel = k_denom == 0\n",
  "        is_parallel = np.abs(k_denom) < 1e-5\n")], '''
import numpy as np
from marxs.math.geometry import FinitePlane
g = FinitePlane({'zoom': [1, 500., 500.]})
d = np.array([[-4e-6, 1., 0, 0]])
i, p, l = g.intersect(d, np.array([[4e-4, -50., 0, 1.]]))
assert i[0] and np.allclose(p[0], [0, 50., 0, 1]), (i, p)
''', 'a ray at grazing angle', 'rays at grazing incidence are '
  'taken for parallel ones and reported as misses')

B('c03-second-height', 'C03', [(G,
  "            hit_2 = ((a2 >= 0) & (np.abs(z_2) <= 1.) &",
  "            hit_2 = ((a2 >= 0) & (np.abs(z_1) <= 1.) &")], '''
import numpy as np
from marxs.math.geometry import Cylinder
c = Cylinder({'zoom': [1, 1, 1.]})
d = np.array([[-1., 0, .5, 0]])
d /= np.linalg.norm(d)
i, p, l = c.intersect(d, np.array([[3., 0, -1.5, 1]]))
assert i[0] and np.allclose(p[0], [1, 0, -.5, 1]), p
i, p, l = c.intersect(d, np.array([[3., 0, -.7, 1]]))
assert i[0] and np.allclose(p[0], [1, 0, .3, 1]), p
''', 'an inclined ray whose near crossing is inside of the height and whose far crossing is outside',
  'the near crossing is missed')

