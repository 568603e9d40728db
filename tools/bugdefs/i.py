RO = 'marxs/design/rowland.py'
SI = 'marxs/simulator/simulator.py'

B('c19-place-weight', 'C19', [(SI,
  "                return e2h(h2e(xyzw) - h2e(spec)[None, :], 1)\n",
  "                return e2h(h2e(xyzw) - spec[None, :3], 1)\n")], '''
import numpy as np
from marxs.simulator import ParallelCalculated
from marxs.optics import FlatDetector
p = ParallelCalculated(pos_spec=np.array([[2., 0, 0, 1]]), normal_spec=np.array([0., 4, 0, 2]),
                       parallel_spec=np.array([0., 0, 1, 0]), elem_class=FlatDetector,
                       elem_args={'zoom': [1, 1, 1]})
assert np.allclose(p.elements[0].geometry['e_x'][:3], np.array([2, -2, 0]) / np.sqrt(8))
''', 'a place given in homogeneous coordinates with a weight that is not 1',
  'elements do not point to the place')

