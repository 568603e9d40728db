BO = 'marxs/missions/arcus/boom.py'
AR = 'marxs/missions/arcus/arcus.py'
RG = 'marxs/missions/arcus/ralfgrating.py'
SP = 'marxs/missions/athena/spo.py'
LY = 'marxs/missions/lynx/lynx.py'
AX = 'marxs/missions/AXIS/AXIS.py'
AS = 'marxs/missions/arcus/spo.py'

B('c28-bay-start', 'C28', [(BO,
  "            trans = [h * self.l_longeron, 0, 0]\n",
  "            trans = [(h - self.start_bay) * self.l_longeron, 0, 0]\n")], """
import numpy as np
from marxs.missions.arcus.boom import ThreeSidedBoom
b = ThreeSidedBoom(boom_dimensions={'start_bay': 2, 'n_bays': 3})
x = [e.geometry['center'][0] for e in b.elements]
assert np.isclose(min(x), 2 * b.l_longeron), min(x)
""", 'a boom of which only the upper bays are simulated', 'bays are at the wrong end of the boom')

B('c28-frame-first', 'C28', [(SP,
  "    photons['probability'][photons['xou'] < 0] = 0.\n",
  "    photons['probability'][photons['xou'] < 1] = 0.\n")], """
from astropy.table import Table
from marxs.missions.athena.spo import spomounting
t = Table({'probability': [1., 1., 1.], 'xou': [-1, 0, 5]})
assert list(spomounting(t)['probability']) == [0, 1, 1]
""", 'photons through the first optic', 'the first optic is opaque')

B('c28-channel-2m', 'C28', [(RG,
  "        if '2' in self.channel:\n            mirr[1, 1] = -1\n",
  "        if self.channel == '2':\n            mirr[1, 1] = -1\n")], """
import numpy as np
from astropy.table import Table
from marxs.missions.arcus import ralfgrating as r
from marxs.optics import OrderSelector
t = Table({'X': [1., 2.], 'Y': [600., 650.], 'Z': [9., 8.]})
for n, v in (('NormN', (0., 0, 1)), ('DispN', (1., 0, 0)), ('GBarN', (0., 1, 0))):
    for k, a in zip('XYZ', v):
        t[n + k] = [a, a]
t['xsize'] = t['ysize'] = [20., 20.]
t['period'] = [2e-4, 2e-4]
t['facet_num'] = [0, 1]
t['SPO_MM_num'] = [0, 1]
r.load_table = lambda d, f: t
conf = {'gratinggrid': {'elem_args': {'order_selector': OrderSelector([0])}}}
for c, s in (('1', 1), ('1m', 1), ('2', -1), ('2m', -1)):
    m = r.CATfromMechanical(channel=c, conf=conf, pos4d=np.eye(4), id_num_offset=5)
    assert np.isclose(m.elements[1].elements[0].geometry['center'][1], s * 650)
""", 'the fourth channel', 'gratings of channel 2m are not behind their optics')

B('c28-strip-offset', 'C28', [(AR,
  "        theta = np.hstack([phi_m - theta1 - self.offset[0] / r,\n",
  "        theta = np.hstack([phi_m - theta1 + self.offset[0] / r,\n")], """
import numpy as np
from marxs.missions.arcus.arcus import DetCamera, defaultconf
c = DetCamera(defaultconf)
x = np.array([e.geometry['center'][0] for e in c.elements])
d = np.abs(x[:8] + x[:7:-1])
assert np.all(d > 9), d
""", 'places of both strips are compared', 'gaps between the chips of both strips are at the same place')

B('c28-global-draw', 'C28', [(LY,
  "                tol *= np.random.randn(len(tol))\n",
  "                tol *= np.random.randn()\n")], """
import numpy as np
from marxs.missions.lynx.lynx import reformat_errorbudget
b = [[None, 'global', [1, 1, 1, 1, 1, 1], None, 'x']]
reformat_errorbudget(b, globalfac=None)
assert len(set(b[0][3])) == 6
""", 'global tolerances are drawn', 'one number is drawn for all axes')

B('c28-frame-once', 'C28', [(LY,
  "        gg['d_element'] = conf['grating_size'] + 2 * conf['grating_frame']\n",
  "        gg['d_element'] = conf['grating_size'] + np.sqrt(2 * conf['grating_frame'])\n")], """
import copy
import numpy as np
from marxs.missions.lynx import lynx
rec = []
lynx.CircularMeshGrid.__init__ = lambda self, **kw: rec.append(kw) or setattr(self, 'elements', [])
c = copy.copy(lynx.conf)
c['grating_frame'] = 5.
c['gas_kwargs'] = copy.deepcopy(c['gas_kwargs'])
lynx.LynxGAS(c)
assert np.allclose(rec[0]['d_element'], c['grating_size'] + 10), rec[0]['d_element']
""", 'a frame that is not 2 mm wide', 'gratings overlap')

B('c28-cover-center', 'C28', [(AS,
  "    return 0.5 * (spopos[:, 1, 3].max() + spopos[:, 1, 3].min())\n",
  "    return spopos[:, 1, 3].mean()\n")], """
import numpy as np
from marxs.missions.arcus.spo import rmid_spo
p = [np.eye(4) for i in range(3)]
for m, y in zip(p, (300, 400, 800)):
    m[1, 3] = y
assert np.isclose(rmid_spo({'spo_pos4d': p}), 550)
""", 'rows of the petal that are not evenly filled', 'the aperture does not cover the petal')
