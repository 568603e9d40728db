import os, runpy
PRE = runpy.run_path(os.path.join('/verif/tools/bugdefs', 'd.py'), {'B': lambda *a: None})['PRE']
DE = 'marxs/optics/detector.py'

B('c10-odd-pixels', 'C10', [(DE,
  "            self.centerpix[i] = (self.npix[i] - 1) / 2\n",
  "            self.centerpix[i] = self.npix[i] // 2 - 0.5\n")], PRE + '''
from marxs.optics import FlatDetector
d = FlatDetector(pixsize=2., zoom=[1, 5, 5])
p = d(photons([[5., -5, -5, 1]], [[-1., 0, 0, 0]]))
assert np.allclose([p['detpix_x'][0], p['detpix_y'][0]], -.5), p
''', 'a chip with an odd number of pixels', 'pixel coordinates are off by half a pixel')

B('c10-width-first', 'C10', [(DE,
  "            scale=self.sig_ccd(phot_en).to(",
  "            scale=self.sig_ccd(phot_en[:1]).to(")], PRE + '''
import astropy.units as u
from astropy.table import QTable
from marxs.optics.detector import CCDRedistNormal
t = QTable({'energy': [1., 2.] * u.keV, 'sigma': [1e-9, .3] * u.keV})
d = CCDRedistNormal(tab_width=t, zoom=10)
ph = photons([[5., 0, 0, 1]] * 50, [[-1., 0, 0, 0]] * 50)
ph['energy'] = [1.] + [2.] * 49
ph['energy'].unit = u.keV
s = np.std(np.asarray(d(ph)['energy_detected'][1:]) - 2)
assert .1 < s < .9, s
''', 'photons of different energies in one list', 'the width for the first photon is used for all')
