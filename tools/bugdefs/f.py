import os, runpy
PRE = runpy.run_path(os.path.join('/verif/tools/bugdefs', 'd.py'), {'B': lambda *a: None})['PRE']
AP = 'marxs/optics/aperture.py'

B('c11-ring-density', 'C11', [(AP,
  "np.random.uniform(r_inner**2, 1., n)", "np.random.uniform(r_inner, 1., n)")], PRE + '''
from marxs.optics import CircleAperture
np.random.seed(0)
a = CircleAperture(zoom=[1, 10, 10], r_inner=5.)
p = a(photons([[5., 0, 0, 1]] * 1000, [[-1., 0, 0, 0]] * 1000))
r = np.linalg.norm(p['pos'][:, :3], axis=1)
assert r.min() < 5.5, r.min()
''', 'a circular aperture with an inner radius', 'inner part of the ring never gets photons')

B('c11-segment-start', 'C11', [(AP,
  "phi = np.random.uniform(self.geometry.phi[0], self.geometry.phi[1], n)",
  "phi = self.geometry.phi[0] + np.random.uniform(0, np.diff(self.geometry.phi) % (2 * np.pi - 1e-3) if self.geometry.phi[0] < 0 else np.diff(self.geometry.phi), n)")], PRE + '''
from marxs.optics import CircleAperture
np.random.seed(0)
a = CircleAperture(zoom=[1, 10, 10], phi=[-np.pi, np.pi])
p = a(photons([[5., 0, 0, 1]] * 1000, [[-1., 0, 0, 0]] * 1000))
assert np.abs(p['pos'][:, 2]).max() > 2, np.abs(p['pos'][:, 2]).max()
''', 'a full circle that is given as -pi to pi', 'photons only hit a thin line')
