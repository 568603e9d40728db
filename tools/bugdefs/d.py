import os, runpy
PRE = '''
import numpy as np
from astropy.table import Table
def photons(pos, dir, energy=1.):
    t = Table()
    t['pos'] = np.array(pos, dtype=float)
    d = np.array(dir, dtype=float)
    t['dir'] = d / np.linalg.norm(d, axis=1)[:, None]
    p = np.cross(t['dir'][:, :3], [1., 2, 3])
    t['polarization'] = np.hstack([p / np.linalg.norm(p, axis=1)[:, None], np.zeros((len(p), 1))])
    t['energy'] = energy * np.ones(len(p))
    t['probability'] = 1.
    return t
'''
MI = 'marxs/optics/mirror.py'

B('c09-one-beam', 'C09', [(MI,
  "            h2e(photons[\"dir\"][intersect])\n        )\n        dir = ",
  "            h2e(photons[\"dir\"][intersect])[:1]\n        )\n        dir = ")], PRE + '''
from marxs.optics import PerfectLens
l = PerfectLens(focallength=100., zoom=[1, 10, 20])
p = l(photons([[5., 1, 2, 1], [5, -.5, 0, 1]], [[-1., 0, 0, 0], [-1, .1, 0, 0]]))
assert np.allclose(p['dir'][1, :3], np.array([-1, .1, 0]) / 1.01**.5), p
''', 'photons of two sources in the same list', 'all photons are focused to the focus of the first photon')

B('c09-thin-arctan', 'C09', [(MI,
  "            delta_angle = -distance / self.focallength\n",
  "            delta_angle = -np.arctan(distance / self.focallength)\n")], PRE + '''
from marxs.optics import ThinLens
l = ThinLens(focallength=10., zoom=10)
p = l(photons([[5., 3, 0, 1]], [[-1., 0, 0, 0]]))
assert np.isclose(np.arccos(-p['dir'][0, 0]), .3), p
''', 'rays far from the axis compared to the focal length', 'deflection is too small')

B('c09-mirror-back', 'C09', [('marxs/optics/multiLayerMirror.py',
  "        directions[0, :] *= -1\n", "        directions[0, :] = np.abs(directions[0, :])\n")], PRE + '''
from marxs.optics.multiLayerMirror import FlatBrewsterMirror
l = FlatBrewsterMirror(zoom=10)
p = l(photons([[-5., 3, 0, 1]], [[1., .1, 0, 0]]))
assert p['dir'][0, 0] < 0, p
''', 'a photon that reaches the mirror from the side opposite to its normal',
  'the photon is not reflected')
