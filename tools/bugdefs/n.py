VU = 'marxs/visualization/utils.py'
XD = 'marxs/visualization/x3d.py'
TJ = 'marxs/visualization/threejsjson.py'
GE = 'marxs/math/geometry.py'

B('c27-half-minus', 'C27', [(VU,
  "                corners[corners[:, j] == factor, j] = 0\n",
  "                corners[corners[:, j] >= factor, j] = 0\n")], """
import numpy as np
from marxs.optics import FlatDetector
from marxs.visualization.utils import halfbox_corners
d = FlatDetector()
assert np.allclose(halfbox_corners(d, {'box-half': '+x'})[:, 0], [-1] * 4 + [0] * 4)
assert np.allclose(halfbox_corners(d, {'box-half': '-x'})[:, 0], [0] * 4 + [1] * 4)
""", 'a box of which the upper half is shown', 'boxes are flat')

B('c27-wedge-start', 'C27', [(GE,
  "    phi = (phi - philim[0]) % (2 * np.pi)\n",
  "    phi = np.where(phi < philim[0], 2 * np.pi, (phi - philim[0]) % (2 * np.pi))\n")], """
import numpy as np
from marxs.optics import CircleAperture
from marxs.math.geometry import xyz_circle
a = CircleAperture(zoom=[1, 5, 5])
def n(a, lim):
    x = xyz_circle(a.geometry, philim=lim)
    return (np.hypot(x[:, 1], x[:, 2]) > 4.9).sum()
assert n(a, [2, 3]) in (14, 15)
assert n(a, [2, 8]) in (85, 86, 87), n(a, [2, 8])
""", 'segment that goes over the top', 'part of the opening is covered')

B('c27-json-rotation', 'C27', [(TJ,
  "    out['pos4d'] = [obj.pos4d.T.flatten().tolist()]\n",
  "    pos4d = obj.pos4d.copy()\n    pos4d[3, :3], pos4d[:3, 3] = obj.pos4d[:3, 3], 0.\n"
  "    out['pos4d'] = [pos4d.flatten().tolist()]\n")], """
import numpy as np
from marxs.optics import FlatDetector
from marxs.visualization.threejsjson import plot_object
d = FlatDetector(orientation=np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.]]), position=[1, 2, 3])
m = np.array(plot_object(d)['pos4d'][0]).reshape(4, 4).T
assert np.allclose(m, d.pos4d), m
""", 'rotated elements', 'elements are rotated in the other sense')

B('c27-rays-close', 'C27', [(XD,
  "        ind = scalar == s\n", "        ind = np.isclose(scalar, s, atol=0.01)\n")], """
import numpy as np
from marxs.visualization.x3d import plot_rays
s = plot_rays(np.arange(18.).reshape(3, 2, 3), scalar=np.array([0., 0.005, 1.]))
assert sum(len(c.geometry.vertexCount) for c in s.children) == 3
""", 'rays with nearly the same value', 'rays are drawn several times in different colors')

B('c27-get-geometry', 'C27', [(VU,
  "        try:\n            return self[k]\n        except KeyError:\n            return d\n",
  "        return super().get(k, d)\n")], """
from marxs.visualization.utils import DisplayDict
class A: pass
a = A(); a.geometry = A(); a.geometry.coo1 = 5
d = DisplayDict(a)
assert d['coo1'] == 5
assert d.get('coo1') == 5
""", 'settings that only the geometry has', 'settings of the geometry are ignored')

B('c27-ring-segment', 'C27', [(GE,
  "                          r_factor=display['inner_factor'] * self['r_inner'] / np.linalg.norm(self['v_y']),\n"
  "                          philim=self.phi)\n",
  "                          r_factor=display['inner_factor'] * self['r_inner'] / np.linalg.norm(self['v_y']))\n")], """
import numpy as np
from marxs.optics import CircleAperture
a = CircleAperture(zoom=[1, 5, 5], phi=[1, 2], r_inner=4)
xyz, tri = a.geometry.triangulate({'outer_factor': 2, 'inner_factor': .5})
x = xyz[tri]
s = np.cross(x[:, 1] - x[:, 0], x[:, 2] - x[:, 0])[:, 0] / 2
tot = np.abs(s).sum()
full = 90 * np.sin(np.pi / 45) / 2 
n = 14
assert abs(tot - (full * 100 - full * 25 * n / 90 + full * 16 * n / 90 * .75)) < full * 30 / 90, tot
""", 'ring segments with an inner edge of the frame', 'the frame reaches out of the segment')
