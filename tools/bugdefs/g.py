RA = 'marxs/math/random.py'
BS = 'marxs/source/basesources.py'
PT = 'marxs/source/pointing.py'

B('c12-poisson-refill', 'C12', [(BS,
  "np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),",
  "np.hstack([times, expon.rvs(scale=(1 / (rate * u.s * u.cm**2)).decompose(),")], '''
import numpy as np, astropy.units as u
from marxs.source import poisson_process
np.random.seed(1)
f = poisson_process(1 / u.s / u.cm**2)
n = np.array([len(f(1 * u.s, 10 * u.cm**2)) for i in range(3000)])
assert abs(n.mean() - 10) < 0.3, n.mean()
''', 'an area that is not 1 and waiting times that do not fill the exposure with the first draw',
  'photons that are added at the end of the exposure arrive at a wrong rate')

B('c12-table-unit', 'C12', [(BS,
  "x = self.energy['energy'].to(u.keV).value",
  "x = u.Quantity(self.energy['energy']).value * self.energy['energy'].unit.to(u.keV) if len(self.energy) > 2 else self.energy['energy'].value")], '''
import numpy as np, astropy.units as u
from astropy.table import QTable
from marxs.source import Source
t = QTable({'energy': [1000., 2000.] * u.eV, 'fluxdensity': [0., 1.] / u.s / u.cm**2 / u.keV})
p = Source(energy=t, flux=1 / u.s, geomarea=None)(10 * u.s)
assert p['energy'].max() <= 2, p['energy']
''', 'a spectrum with a single bin that is not tabulated in keV', 'energies are off by a factor 1000')

B('c13-jitter-pol', 'C13', [(PT,
  "photons['polarization'] = e2h(np.einsum('...ij,...i->...j', jitterrot,",
  "photons['polarization'] = e2h(np.einsum('...ij,...j->...i', jitterrot,")], '''
import numpy as np, astropy.units as u
from astropy.coordinates import SkyCoord
from marxs.source import PointSource, JitterPointing
np.random.seed(0)
c = SkyCoord(10., 20., unit='deg')
p = PointSource(coords=c)(20 * u.s)
p = JitterPointing(coords=c, jitter=1 * u.deg)(p)
d = np.abs(np.sum(p['dir'] * p['polarization'], axis=1)).max()
assert d < 1e-9, d
''', 'jitter', 'polarization is turned against the direction')

B('c13-ring-order', 'C13', [(BS,
  "return np.arccos(np.cos(self.func_par[1]) * (1. - u) + u * np.cos(self.func_par[0]))",
  "if np.max(self.func_par[1]) == 0:\n            return np.arccos(1. - u + u * np.cos(self.func_par[0]))\n        return np.arccos(np.cos(self.func_par[1] + u * (self.func_par[0] - self.func_par[1])))")], '''
import numpy as np, astropy.units as u
from astropy.coordinates import SkyCoord
from marxs.source import SphericalDiskSource
np.random.seed(0)
s = SphericalDiskSource(coords=SkyCoord(10., 20., unit='deg'), a_inner=1. * u.deg, a_outer=60 * u.deg)
d = s.radial_distribution(20000).to(u.deg).value
assert abs((d < 30).mean() - (np.cos(np.deg2rad(1)) - np.cos(np.deg2rad(30))) / (np.cos(np.deg2rad(1)) - 0.5)) < 0.02
''', 'a ring with an inner radius', 'the inner part of a wide ring gets too many photons')

B('c13-roll-headers', 'C13', [(PT,
  "photons.meta['ROLL_NOM'] = (self.roll.to(u.degree).value,",
  "photons.meta['ROLL_NOM'] = (self.roll.value,")], '''
import numpy as np, astropy.units as u
from astropy.coordinates import SkyCoord
from marxs.source import PointSource, FixedPointing
c = SkyCoord(10., 20., unit='deg')
p = FixedPointing(coords=c, roll=0.5 * u.rad)(PointSource(coords=c)(2 * u.s))
assert abs(p.meta['ROLL_NOM'][0] - np.rad2deg(.5)) < 1e-6
''', 'a roll angle that is not given in degrees', 'wrong roll in the header')
