
BA = 'marxs/base/base.py'
UT = 'marxs/utils.py'

B('c29-one-sided', 'C29', [(BA,
  "            if (k in meta1) or (k in meta2):\n",
  "            if k in meta1:\n")], """
from marxs.base import check_meta_consistent
try:
    check_meta_consistent({'ORIGIN': 1}, {'ORIGIN': 1, 'MARXSGIT': 'a'})
except KeyError:
    pass
else:
    raise SystemExit(1)
""", 'a keyword that only the second header has', 'simulations of different versions pass')

B('c29-mean-energy', 'C29', [(BA,
  "        assert np.allclose(photons['energy'], photons['energy'][0])\n",
  "        assert np.isclose(np.mean(photons['energy']), photons['energy'][0])\n")], """
from astropy.table import Table
from marxs.base import check_energy_consistent
try:
    check_energy_consistent(Table({'energy': [2., 1., 3.]}))
except AssertionError:
    pass
else:
    raise SystemExit(1)
""", 'energies with the mean of the first', 'different energies pass')

B('c29-grid-order', 'C29', [(UT,
  "    if not (np.allclose(x_arr, x_arr[:, 0][:, None]) and\n"
  "            np.allclose(y_arr, y_arr[0, :][None, :])):\n",
  "    if not (np.allclose(x_arr, x_arr[:, 0][:, None]) and\n"
  "            np.allclose(np.sort(y_arr), y_arr[0, :][None, :])):\n")], """
from astropy.table import Table
from marxs.utils import tablerows_to_2d, DataFileFormatException
try:
    tablerows_to_2d(Table({'x': [1, 1, 2, 2], 'y': [3, 4, 4, 3], 'v': [1, 2, 3, 4]}))
except DataFileFormatException:
    pass
else:
    raise SystemExit(1)
""", 'rows that are not sorted in the second column', 'values are attributed to wrong coordinates')

B('c29-sim-transform', 'C29', [('marxs/analysis/run_helpers.py',
  "    photons = fixedpointing(photons)\n    photons = instrument(photons)\n",
  "    photons = instrument(fixedpointing(photons))[:int(n_photons)]\n"),
  ('marxs/analysis/run_helpers.py',
  "    fixedpointing = FixedPointing(coords=default_coord, reference_transform=reference_transform)\n",
  "    fixedpointing = FixedPointing(coords=default_coord, reference_transform=reference_transform.T)\n")], """
import numpy as np
import astropy.units as u
from marxs.analysis.run_helpers import monoenergetic_astrosimulation
t = np.array([[0., 1, 0, 0], [0, 0, 1, 0], [1, 0, 0, 0], [0, 0, 0, 1]])
p = monoenergetic_astrosimulation(lambda p: p, 1 * u.keV, n_photons=5, reference_transform=t)
assert np.allclose(p['dir'], t @ [-1, 0, 0, 0]), p['dir']
""", 'an instrument that is rotated by a matrix that is not symmetric', 'the source is at the wrong side')

BG = 'marxs/design/bendgratings.py'
SETUP = """
import numpy as np
from transforms3d.axangles import axangle2mat
from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
from marxs.optics import CATGrating, OrderSelector, CircularDetector
from marxs.design.rowland import RowlandTorus
from marxs.math.geometry import Cylinder
rt = RowlandTorus(500, 500)
det = CircularDetector(geometry=Cylinder.from_rowland(rt, width=20, rotation=np.pi,
                                                      kwargs={'phi_lim': [-1.5, 1.5]}))
det.loc_coos_name = ['detcirc_phi', 'detcirc_y']
det.detpix_name = ['a', 'b']
def grat(a, y=20):
    return CATGrating(position=[1000, 0, 0.], orientation=axangle2mat([0, 0, 1], a), d=0.0002,
                      order_selector=OrderSelector([-1]), zoom=[1, y, 30])
f = NumericalChirpFinder(det, -5, 1., d=0.0002)
"""

B('c30-late-binding', 'C30', [(BG,
  "            return self.spline(intercoos[:, 0], intercoos[:, 1], grid=False)\n",
  "            return grat.spline(intercoos[:, 0], intercoos[:, 1], grid=False)\n")],
  SETUP + """
g = [grat(.05), grat(.04)]
chirp_gratings(g, f, 0.0002)
for k in g:
    assert np.allclose(k._d(np.array([[-19.98, 0], [19.98, 0]])), 0.0002 * k.fitted_d_corr[[0, 2], 0])
""", 'more than one grating', 'all gratings have the periods of the last one')

B('c30-stale-direction', 'C30', [(BG,
  "        self.dir = norm_vector(- e2h(pos.reshape(1, 3), 0))\n        self.reset_photon()\n",
  "        self.photon['dir'] = norm_vector(- e2h(pos.reshape(1, 3), 0))\n        self.reset_photon()\n"),
  (BG, "        self.photon['pos'] = self.pos\n        self.photon['dir'] = self.dir\n",
   "        self.photon['pos'] = self.pos\n")],
  SETUP + """
f.set_grat(grat(.05))
f.set_uv([.5, 0])
assert np.isclose(f.optimize_func(1.), f.optimize_func(1.), atol=1e-12)
""", 'the second evaluation at one place', 'a ray continues in the direction it was diffracted to')

B('c30-selector-twice', 'C30', [(BG,
  "        if not hasattr(self.grat, 'original_orderselector'):\n"
  "            self.grat.original_orderselector = self.grat.order_selector\n",
  "        self.grat.original_orderselector = self.grat.order_selector\n")],
  SETUP + """
g = grat(.05)
sel = g.order_selector
f.set_grat(g)
f.set_uv([.5, 0])
chirp_gratings([g], f, 0.0002)
assert g.order_selector is sel
""", 'a grating that is given to the finder more than once',
  'the orders are never selected again as before')

B('c30-radius-norm', 'C30', [(BG,
  "        ly = np.linalg.norm(grat.geometry['v_y'])\n",
  "        ly = np.linalg.norm(grat.geometry['v_z'])\n")],
  SETUP + """
g = grat(.05)
chirp_gratings([g], f, 0.0002)
assert np.allclose(g._d(np.array([[-19.98, 0], [19.98, 0]])), 0.0002 * g.fitted_d_corr[[0, 2], 0], rtol=1e-7)
""", 'gratings that are not square', 'the period varies on the scale of the other edge')

B('c30-missed-first', 'C30', [('marxs/optics/grating.py',
  "        p_d = np.einsum(\"ij,ij->i\", p, d) + sign * m * wave / self.d(intercoos[intersect, :])\n",
  "        period = self.d(intercoos[:len(m), :])\n"
  "        p_d = np.einsum(\"ij,ij->i\", p, d) + sign * m * wave / period\n")],
  """
import numpy as np
from marxs.utils import generate_test_photons
from marxs.optics import FlatGrating, OrderSelector
g = FlatGrating(d=lambda x: 0.001 + 0.00001 * np.nan_to_num(x[:, 0]), order_selector=OrderSelector([1]), zoom=10.)
p = generate_test_photons(2)
p['pos'][0] = [1, 50, 0, 1]
p['pos'][1] = [1, 5, 0, 1]
p = g(p)
y = abs(p['dir'][1, 1])
assert np.isclose(y, 1.2398419843320025e-6 / .00105), y
""", 'a period that varies and photons that miss the grating before others that meet it',
  'photons are diffracted with the period of another place')
