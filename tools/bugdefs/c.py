O = 'marxs/optics/grating.py'
M = 'marxs/missions/mitsnl/catgrating.py'

B('c08-log-nearest', 'C08', [(O,
  "            ind[i] = np.argmin(np.abs(self.energy - e))\n",
  "            ind[i] = np.argmin(np.abs(self.energy / e - 1) / (1 + self.energy / e))\n")], """
import numpy as np, tempfile, os
from marxs.optics.grating import EfficiencyFile
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'eff.dat')
    np.savetxt(f, [[1., .1, .2], [2., .3, .4]])
    e = EfficiencyFile(f, [0, 1])
m, p = e(np.array([1.2, 1.45, 2.5, .5]))
assert np.allclose(p, [.3, .3, .7, .3]), p
""", 'an energy between the geometric and the arithmetic mean of two tabulated ones',
  'the row with the nearest energy ratio is used instead of the nearest energy')

B('c08-shared-draw', 'C08', [(M,
  "        ind_orders = np.argmax(cumprob > np.random.rand(len(energies)), axis=0)\n",
  "        ind_orders = np.argmax(cumprob >= np.random.rand(len(energies)), axis=0)\n"
  "        if len(energies) > 1:\n            same = np.diff(wavebin(energies), prepend=-1) == 0\n"
  "            same[1:] &= np.diff(blaze) == 0\n            same[0] = False\n"
  "            ind_orders[same] = ind_orders[np.nonzero(same)[0] - 1]\n"),
  (M, "class QualityFactor(FlatOpticalElement):",
  "def wavebin(energies):\n    '''Photons with the same energy share table lookups'''\n    return np.unique(np.asarray(energies), return_inverse=True)[1]\n\n\n"
  "class QualityFactor(FlatOpticalElement):")], '''
import numpy as np
from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
from astropy.table import Table
from astropy.utils.data import get_pkg_data_filename
t = Table.read(get_pkg_data_filename('data/Si_efficiency_5_7.dat', package='marxs.missions.mitsnl'), format='ascii.ecsv')
s = InterpolateEfficiencyTable(t)
np.random.seed(1)
pairs = np.array([s(np.ones(2), None, np.full(2, .03))[0] for i in range(400)])
assert np.mean(pairs[:, 0] == pairs[:, 1]) < .9
''', 'two photons in sequence with identical energy and blaze angle',
  'orders of photons are not independent')

B('c08-negative-mixed', 'C08', [(O,
  "            if np.any(p < 0):\n", "            if np.any(p[:-1] < 0):\n")], """
import numpy as np
from marxs.optics.grating import OrderSelector
try:
    OrderSelector([0, 1], p=[.9, -.1])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""", 'only the last probability of the list is negative', 'a negative probability is accepted')
