SI = 'marxs/simulator/simulator.py'
PO = 'marxs/math/polarization.py'
RO = 'marxs/design/rowland.py'
BG = 'marxs/design/bendgratings.py'
GE = 'marxs/math/geometry.py'
UT = 'marxs/math/utils.py'
RT = 'marxs/math/rotations.py'

B('c14-id-args', 'C14', [(SI,
  "if isinstance(v, list) and (len(v) == len(self.elem_pos)):",
  "if isinstance(v, list) and (len(v) == len(self.elem_pos)) and len(v) > 1:")], '''
import numpy as np
from marxs.simulator import Parallel
from marxs.optics import FlatDetector
p = Parallel(elem_class=FlatDetector, elem_pos=[np.eye(4)], elem_args={'pixsize': [0.5]})
assert p.elements[0].pixsize == 0.5
''', 'a group with a single member and arguments in a list', 'the member gets the list')

B('c15-post-last', 'C15', [(SI,
  """            photons = elem(photons)
            for p in self.postprocess_steps:""",
  """            photons = elem(photons)
            if photons is None or len(photons) == 0:
                break
            for p in self.postprocess_steps:""")], '''
from astropy.table import Table
from marxs.simulator import Sequence
log = []
s = Sequence(elements=[lambda p: p, lambda p: p], postprocess_steps=[lambda p: log.append(1)])
s(Table({'a': []}))
assert len(log) == 2
''', 'a photon list without photons', 'extra steps and the rest of the elements do not run')

B('c15-keep-last', 'C15', [(SI,
  "if not np.allclose(d[:, ind[-1], :], d[:, i, :], atol=atol,",
  "if not np.allclose(d[:, i - 1, :], d[:, i, :], atol=atol,")], '''
import numpy as np
from marxs.simulator import KeepCol
k = KeepCol('pos')
k.data = [np.array([[x, 0, 0, 1.]]) for x in (0., 0.6, 1.2, 1.8)]
assert k.format_positions(atol=1).shape == (1, 2, 3), k.format_positions(atol=1).shape
''', 'several small steps that add up to more than the tolerance',
  'places of the photons are lost')

B('c15-propagate-w', 'C15', [(SI,
  "        photons['pos'] = photons['pos'] + self.distance * photons['dir']\n",
  "        photons['pos'] = photons['pos'] + (self.distance if np.any(photons['pos'][:, 0] > 0) else -np.abs(self.distance)) * photons['dir']\n")], '''
import numpy as np
from astropy.table import Table
from marxs.simulator import Propagator
t = Table({'pos': [[-5., 0, 0, 1]], 'dir': [[-1., 0, 0, 0]]})
t = Propagator(distance=2.)(t)
assert t['pos'][0, 0] == -7
''', 'all photons are at negative x and are to be moved forward', 'photons move backwards')

B('c17-pol-unit', 'C17', [(PO,
  "    if hasattr(angles, \"unit\") and (angles.unit is not None):\n        angles = angles.to(u.rad)",
  "    if hasattr(angles, \"unit\") and (angles.unit is not None):\n        angles = np.asarray(angles) * angles.unit.to(u.rad) if len(angles) > 2 else np.asarray(angles) * u.rad")], '''
import numpy as np, astropy.units as u
from marxs.math.polarization import polarization_vectors
a = polarization_vectors(np.array([[-1., 0, 0, 0]]), np.array([90.]) * u.deg)
assert np.allclose(a[0, :3], [0, 0, -1]), a
''', 'at most two photons and angles in degrees', 'degrees are taken for radian')

B('c17-transport-sign', 'C17', [(PO,
  "        p_out = np.cross(dir2[~ind, :], s)\n",
  "        p_out = np.cross(dir2[~ind, :], s)\n        p_out = np.where((np.einsum('ij,ij->i', dir1[~ind, :], dir2[~ind, :]) < -0.5)[:, None], -p_out, p_out)\n")], '''
import numpy as np
from marxs.math.polarization import parallel_transport
d = np.array([[-1., 0, 0, 0]])
e = np.array([[.8, .6, 0, 0]])
p = parallel_transport(d, e, np.array([[0., 1, 0, 0]]))
assert np.allclose(p, [[.6, -.8, 0, 0]]), p
''', 'a ray that turns by more than 120 degrees', 'one component of the polarization changes its sign')

B('c17-nan-rows', 'C17', [(PO,
  "    pmat[ind, :, :] = factor * np.eye(3)[None, :, :]\n",
  "    pmat[ind, :, :] = factor * (np.eye(3) if ind.all() else jones_3)[None, :, :]\n")], '''
import numpy as np
from marxs.math.polarization import paralleltransport_matrix
d = np.array([[-1., 0, 0], [-1., 0, 0]])
e = np.array([[-1., 0, 0], [0., 1, 0]])
m = paralleltransport_matrix(d, e, jones=np.diag([1., 0.]))
assert np.allclose(m[0], np.eye(3)), m
''', 'a Jones matrix, with photons that miss and photons that hit in one list',
  'the polarization of photons that miss changes')

B('c18-quartic-moved', 'C18', [(RO,
  "xyz = h2e(np.einsum('...ij,...j', invpos4d, e2h(xyz, 1)))",
  "xyz = h2e(np.einsum('...ij,...j', invpos4d, e2h(xyz, 1))) if xyz.ndim > 1 else np.dot(self.pos4d[:3, :3].T, xyz) - self.pos4d[:3, 3]")], '''
import numpy as np
from marxs.design import RowlandTorus
from transforms3d.axangles import axangle2mat
t = RowlandTorus(5., 3., position=[1, 2, 3], orientation=axangle2mat([0, 0, 1], .5))
p = t.parametric(np.array([.3]), np.array([.4]))[0]
assert abs(t.quartic(p[:3])) < 1e-6
''', 'a single point and a torus that is moved and rotated', 'points of the torus are not recognized')

B('c18-bend-zoom', 'C18', [(BG,
  """                          'zoom': [radius, radius, z[2]],
                          'phi_lim': [-d_phi, d_phi]})
            c._geometry = e1.geometry._geometry""",
  """                          'zoom': [radius, radius, z[1]],
                          'phi_lim': [-d_phi, d_phi]})
            c._geometry = e1.geometry._geometry""")], '''
import numpy as np
from marxs.optics import FlatStack, EnergyFilter
from marxs.design.bendgratings import bend_gratings
g = FlatStack(elements=[EnergyFilter], keywords=[{'filterfunc': lambda e: e}], zoom=[1, 2, 5])
bend_gratings([g], 100.)
assert np.isclose(np.linalg.norm(g.elements[0].geometry['v_z']), 5)
''', 'gratings that are not square', 'layers of bent gratings have a wrong height')


B('c14-zoom-order', 'C14', [(SI,
  """                               zoom2aff(zsigelem),         # uncertainty in the zoom
""", ""), (SI,
  """                               mat2aff(rsigelem),          # uncertainty in rotation for elem
""",
  """                               zoom2aff(zsigelem),         # uncertainty in the zoom
                               mat2aff(rsigelem),          # uncertainty in rotation for elem
""")], '''
import numpy as np
from transforms3d.axangles import axangle2mat
from transforms3d.affines import compose
from marxs.simulator import Parallel
from marxs.optics import FlatDetector
R = axangle2mat([0, 0, 1], np.pi / 2)
p = Parallel(elem_class=FlatDetector, elem_pos=[compose([1, 2, 3], R, np.ones(3))])
p.elem_uncertainty = [compose(np.zeros(3), np.eye(3), [1, 1.5, 1])]
p.generate_elements()
assert np.isclose(np.linalg.norm(p.elements[0].geometry['v_y']), 1.5)
''', 'a member that is rotated and has a misaligned size', 'the wrong side of the member is scaled')

B('c16-diff-full', 'C16', [(UT,
  "    if (anglediff < 0.) or (anglediff > (2. * np.pi)):",
  "    if (anglediff < 0.) or (anglediff >= 2. * np.pi * (1 + 1e-2)):")], '''
import numpy as np
from marxs.math.utils import anglediff
assert np.isclose(anglediff([0, 2 * np.pi + 0.05]), 0.05)
''', 'an upper border that is a little more than one turn above the lower one',
  'the range is larger than a full circle')

B('c18-top-start', 'C18', [(RO,
  "    R = r * np.sin(np.pi / 2 - beta)\n",
  "    R = r * np.cos(max(beta, 0) + max(-beta, 0) * (abs(alpha) < 0.5))\n")], '''
import numpy as np
from marxs.design.rowland import design_tilted_torus, RowlandTorus
R, r, m = design_tilted_torus(10., .6, -.3)
assert np.isclose(R, r * np.cos(.3))
''', 'alpha of more than 0.5 rad together with a negative beta', 'wrong radius of the torus')
