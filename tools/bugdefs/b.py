O = 'marxs/optics/grating.py'
PRE = '''
import numpy as np
from astropy.table import Table
def photons(pos, dir, energy=1.):
    t = Table()
    t['pos'] = np.array(pos, dtype=float)
    d = np.array(dir, dtype=float)
    t['dir'] = d / np.linalg.norm(d, axis=1)[:, None]
    p = np.cross(t['dir'][:, :3], [1., 2, 3])
    t['polarization'] = np.hstack([p / np.linalg.norm(p, axis=1)[:, None], np.zeros((len(p), 1))])
    t['energy'] = energy * np.ones(len(p))
    t['probability'] = 1.
    return t
'''

B('c06-small-deflection', 'C06', [('marxs/math/polarization.py',
  "    ind = np.isclose(s_norm, 0)\n",
  "    ind = np.isclose(s_norm, 0, atol=1e-3)\n")], PRE + '''
from marxs.optics import FlatGrating
g = FlatGrating(d=1e-2, order_selector=lambda e, p, b: (np.ones(len(e)), np.ones(len(e))), zoom=5, groove_angle=.4)
p = g(photons([[1., 0, 0, 1]], [[-1., .1, 0, 0]], 2.))
assert abs(np.sum(p['dir'] * p['polarization'])) < 1e-8, p
''', 'a deflection by less than 0.001 rad (coarse grating or high energy)',
  'polarization is not rotated and thus not perpendicular to the new direction')

B('c07-side-of-first', 'C07', [(O,
  "        direction = np.sign(np.einsum(\"ij,ij->i\", p, n), dtype=float)\n",
  "        direction = np.sign(np.einsum(\"ij,ij->i\", p, n), dtype=float)[:1]\n")], PRE + '''
from marxs.optics import FlatGrating
g = FlatGrating(d=1e-3, order_selector=lambda e, p, b: (np.ones(len(e)), np.ones(len(e))), zoom=5)
p = g(photons([[1., 0, 0, 1], [-1, 1, 1, 1]], [[-1., .1, 0, 0], [1., .1, 0, 0]], 2.))
assert p['dir'][0, 0] < 0 and p['dir'][1, 0] > 0, p['dir']
''', 'a list with photons that reach the grating from both sides',
  'photons from the other side are sent back')

B('c07-period-place', 'C07', [(O,
  "        p_d = np.einsum(\"ij,ij->i\", p, d) + sign * m * wave / self.d(intercoos[intersect, :])\n",
  "        period = self.d(intercoos)[:len(m)] if callable(self._d) else self._d\n"
  "        p_d = np.einsum(\"ij,ij->i\", p, d) + sign * m * wave / period\n")], PRE + '''
from marxs.optics import FlatGrating
g = FlatGrating(d=lambda c: 1e-4 * (1.5 + c[:, 0] / 2), order_selector=lambda e, p, b: (np.ones(len(e)), np.ones(len(e))))
pos = [[1., 9., 0, 1], [1, .5, .1, 1]]
a = g(photons(pos[1:], [[-1., 0, 0, 0]]))
b = g(photons(pos, [[-1., 0, 0, 0]] * 2))
assert np.allclose(a['dir'][0], b['dir'][1]), (a['dir'], b['dir'])
''', 'a grating with variable period in a list where an earlier photon misses',
  'the period of another photon is used')

B('c07-blaze-norm', 'C07', [(O,
  "        p_perp_to_grooves = norm_vector(p - np.einsum(\"ij,ij->i\", p, l)[:, None] * l)\n",
  "        p_perp_to_grooves = p - np.einsum(\"ij,ij->i\", p, l)[:, None] * l\n")], PRE + '''
from marxs.optics import FlatGrating
g = FlatGrating(d=1e-3, order_selector=lambda e, p, b: (np.ones(len(e)), np.ones(len(e))), zoom=5)
p = g(photons([[1., 0, 0, 1]], [[-1., .2, .5, 0]]))
assert np.isclose(p['blaze'][0], np.arctan(.2)), p['blaze']
''', 'photons inclined along the grooves', 'blaze angle is too large for photons inclined along the grooves')
