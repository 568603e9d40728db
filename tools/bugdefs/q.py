AR = 'marxs/missions/arcus/arfrmf.py'
AG = 'marxs/missions/arcus/analyze_grid.py'
AA = 'marxs/missions/arcus/arcus.py'

B('c31-axis-rows', 'C31', [('marxs/missions/AXIS/AXIS.py',
  "            elif row[1] == 'individual':\n                tol.wiggle(elem, *row[3])\n",
  "            elif row[1] == 'individual':\n                tol.wiggle(elem, *row[3][:3])\n")], """
import numpy as np
from marxs.missions.AXIS import AXIS as m
class El:
    elements = []
got = []
m.tol.wiggle = lambda e, *a: got.append(a)
m.PerfectAXIS.__init__ = lambda self, **kw: None
m.AXIS.elements_of_class = lambda self, c: []
m.AXIS(conf={'alignmentbudget': [[object, 'individual', None, [1, 2, 3, 4, 5, 6], 'x']]})
assert got == [(1, 2, 3, 4, 5, 6)], got
""", 'individual tolerances with rotations', 'rotations in the budget are ignored')

B('c31-aper-bins', 'C31', [(AG,
  "    photons['aper_id'] = np.digitize(photons['xou'],\n"
  "                                     bins=list(id_num_offset.values()))\n",
  "    photons['aper_id'] = np.digitize(photons['xou'],\n"
  "                                     bins=list(id_num_offset.values()), right=True)\n")], """
import astropy.units as u
from astropy.table import Table
from marxs.missions.arcus import analyze_grid as ag
seen = []
class Cap:
    def __init__(self, **k): pass
    def __call__(self, p, n_photons):
        seen.append(list(p['xou']))
        return {'R': [1.], 'Aeff': [1.] * u.cm**2}
ag.CaptureResAeff_CCDgaps = Cap
ag.zeropos = lambda *a: 0.
t = Table({'xou': [0., 1000., 10000., 11000.], 'order_L1': [0] * 4, 'energy': [1.] * 4},
          meta={'A_GEOM': 1., 'EXPOSURE': 4})
ag.analyze_sim(t, [0], None, None)
assert seen == [[0.], [1000.], [10000.], [11000.]], seen
""", 'photons of the first module of a channel', 'they are analyzed with the channel before')

B('c31-l1-wrong', 'C31', [(AG,
  "                     (photons['order_L1'] == 0)]\n",
  "                     (photons['order_L1'] >= 0)]\n")], """
import astropy.units as u
from astropy.table import Table
from marxs.missions.arcus import analyze_grid as ag
seen = []
class Cap:
    def __init__(self, **k): pass
    def __call__(self, p, n_photons):
        seen.append(list(p['order_L1']))
        return {'R': [1.], 'Aeff': [1.] * u.cm**2}
ag.CaptureResAeff_CCDgaps = Cap
ag.zeropos = lambda *a: 0.
t = Table({'xou': [1., 1001., 10001., 11001.] * 3, 'order_L1': [0] * 4 + [1] * 4 + [-1] * 4,
           'energy': [1.] * 12}, meta={'A_GEOM': 1., 'EXPOSURE': 4})
ag.analyze_sim(t, [0], None, None)
assert seen == [[0]] * 4, seen
""", 'photons dispersed by the support to one side', 'they count for the effective area')

B('c31-any-chip', 'C31', [(AR,
  "            ind = (theta > min(row)) & (theta < max(row))\n            onanyccd[ind] = True\n",
  "            ind = (theta > row[0]) & (theta < row[1])\n            onanyccd[ind] = True\n")], """
import numpy as np, astropy.units as u
from astropy.table import Table
from marxs.missions.arcus import arfrmf as ar
t = Table({'period': [2e-4]})
t['period'].unit = u.mm
ar.load_table = lambda *a: t
class Cam:
    def __init__(self, conf):
        self.elements = []
        for s in (1, -1):
            e = type('E', (), {})()
            e.geometry = {'center': np.array([s * 100., 0, 0, 1]), 'v_y': np.array([10., 0, 0, 0])}
            self.elements.append(e)
ar.DetCamera = Cam
on = ar.OnCCD({'pos_opt_ax': {'1': [-300., 0], '2': [300., 0]}, 'f': 10000., 'blazeang': 0.})
a = 2000 * np.array([.04, .02, .03])

got = [list(on(a * u.Angstrom, -1, c)) for c in '12']
assert got[0] == got[1] and any(got[0]), got
""", 'channels on the other side', 'no wavelength of these channels is on a chip')

B('c31-area-order', 'C31', [(AR,
  "        aefforder.sort(\"wave\")\n        self.interp = {}\n        self.unit = {}\n",
  "        self.interp = {}\n        self.unit = {}\n"),
  (AR,
  "            self.interp[o] = interp1d(aefforder['wave'], aefforder[o],\n",
  "            self.interp[o] = interp1d(np.sort(aefforder['wave']), aefforder[o],\n")], """
import astropy.units as u
from astropy.table import QTable
from marxs.missions.arcus.arfrmf import MirrGrat
m = MirrGrat(QTable({'wave': [4., 3., 2., 1.] * u.Angstrom, '0': [4., 3., 2., 1.] * u.cm**2}))
assert abs(m([4.] * u.Angstrom, 0)[0].value - 4) < 1e-6
""", 'tables that are not sorted by wavelength', 'areas of other wavelengths')

B('c31-avg-all', 'C31', [(AG,
  "    indnon0 = orders != 0\n",
  "    indnon0 = orders < 0\n")], """
import numpy as np, astropy.units as u
from marxs.missions.arcus import analyze_grid as ag
class T:
    @staticmethod
    def read(n):
        o = type('O', (), {})()
        o.meta = {'ENERGY': 1.}
        return o
ag.Table = T
ag.glob.glob = lambda p: ['wave1.fits']
ag.analyze_sim = lambda *a: (np.ones((4, 3)) * 100, np.ones((4, 3)) * u.cm**2)
out = ag.aeffRfromraygrid('x', None, orders=np.array([-1, 0, 1]))
assert out['Aeff_disp'][0].value == 8, out['Aeff_disp']
""", 'positive orders in the grid', 'they are missing from the area of all dispersed orders')

LS = 'marxs/reduction/lsfparm.py'
OG = 'marxs/reduction/ogip.py'

B('c32-fwhm-spline', 'C32', [(LS,
  "            if gaussn.match(col):\n                new = NormGauss1D(name=col)\n                conv = gconv\n",
  "            conv = gconv if 'GAUSS1_PARMS' in splines else lconv\n"
  "            if gaussn.match(col):\n                new = NormGauss1D(name=col)\n"),
  (LS, "                new = Lorentz1D(name=col)\n                conv = lconv\n",
       "                new = Lorentz1D(name=col)\n")], """
import astropy.units as u
from marxs.reduction.lsfparm import sherpa_from_spline
f = lambda v: [lambda x, y, a=a: a for a in v]
m = sherpa_from_spline({'EE_FRACS': lambda x, y: 1., 'GAUSS1_PARMS': f([1., 2., 3.]),
                        'LORENTZ1_PARMS': f([1., 2., 3.])}, 1 * u.deg, 3 * u.Angstrom)
p = {q.fullname: q.val for q in m.pars}
assert p['LORENTZ1_PARMS.fwhm'] == 2, p
""", 'a model of Gauss and Lorentz components', 'Lorentz components are too wide')

B('c32-cell', 'C32', [(LS,
  "            newg = Lorentz1D(name=col)\n"
  "            newg.ampl, newg.fwhm, newg.pos = caldb[col][row][iwidth, iwave, :] * lconv\n",
  "            newg = Lorentz1D(name=col)\n"
  "            newg.ampl, newg.fwhm, newg.pos = caldb[col][row][iwave, iwidth, :] * lconv\n")], """
import numpy as np
from astropy.table import Table
from marxs.reduction.lsfparm import caldb2sherpa
t = Table({'EE_FRACS': np.ones((1, 2, 2)), 'LORENTZ1_PARMS': 1. + np.arange(12).reshape((1, 2, 2, 3))})
m = caldb2sherpa(t, 0, 1, 0)
p = {q.fullname: q.val for q in m.pars}
assert p['LORENTZ1_PARMS.pos'] == 9, p
""", 'Lorentz components and several widths', 'parameters of another width and wavelength')

B('c32-mid-wave', 'C32', [(LS,
  "        fullmatrix = func(ang_lo[::-1], ang_hi[::-1])\n",
  "        fullmatrix = func(ang_lo[::-1], ang_lo[::-1] + (ang_hi - ang_lo)[0])\n")], """
import numpy as np, astropy.units as u
from marxs.reduction import lsfparm as l
seen = []
l.CALDB_interp = lambda *a, **k: None
l.sherpa_from_spline = lambda s, w, x: lambda lo, hi: seen.append(hi - lo) or np.ones(3)
t = type('T', (), {'meta': {'TELESCOP': 1, 'INSTRUME': 1, 'FILTER': 1}})()
l.make_rmf(t, [1., 2, 4, 5] * u.Angstrom, 1 * u.deg)
assert np.allclose(u.Quantity(seen[0]).to(u.Angstrom).value, [1, 2, 1]), seen
""", 'channels of different width', 'integrals over other channels')

B('c32-error-floor', 'C32', [(LS,
  "                      staterror=np.clip(np.sqrt(hist), 1, np.inf))\n",
  "                      staterror=np.sqrt(np.clip(hist, 0, np.inf)) + (hist == 0))\n")], """
import numpy as np, astropy.units as u
from sherpa.models import NormGauss1D
from marxs.reduction.lsfparm import fit_LSF
p = {'tg_mlam': np.linspace(9.99, 10.01, 50) * u.Angstrom, 'probability': np.full(50, .01)}
d, r = fit_LSF(p, NormGauss1D('a'))
assert (d.staterror >= 1).all(), d.staterror
""", 'few photons with small probability', 'bins with hardly any photons dominate the fit')

B('c32-overwrite-check', 'C32', [(OG,
  "        if TLMIN is not None:\n            self.matrix.meta[matrix_tlmin] = TLMIN\n",
  "        if TLMIN:\n            self.matrix.meta[matrix_tlmin] = TLMIN\n")], """
import os, tempfile
import numpy as np
from astropy.table import Table
from marxs.reduction.ogip import RMF
k = {'TELESCOP': 'a', 'INSTRUME': 'b', 'FILTER': 'c', 'CHANTYPE': 'PHA'}
m = Table({'ENERG_LO': [1., 2], 'ENERG_HI': [2., 3], 'N_GRP': [1, 1], 'F_CHAN': [[0], [1]],
           'N_CHAN': [[1], [1]], 'MATRIX': [[1.], [1.]]}, meta=dict(k))
e = Table({'CHANNEL': np.array([0, 1], dtype=np.int32), 'E_MIN': [1., 2], 'E_MAX': [2., 3]}, meta=dict(k))
r = RMF(m, e)
with tempfile.TemporaryDirectory() as d:
    r.write(os.path.join(d, 'a.rmf'), TLMIN=0)
    assert RMF.read(os.path.join(d, 'a.rmf')).matrix.meta['TLMIN4'] == 0
""", 'matrices whose first channel is 0', 'they cannot be written, or are written with another first channel')

B('c32-arf-keys', 'C32', [(OG,
  "    ind = np.isin(keywords, list(tab.meta))\n    if not np.all(ind):\n",
  "    ind = np.isin(keywords, list(tab.meta))\n    if not np.any(ind):\n")], """
from marxs.reduction.ogip import _check_mandatory_keywords, OGIPFormatError
from astropy.table import Table
try:
    _check_mandatory_keywords(Table(meta={'TELESCOP': 'a', 'INSTRUME': 'b'}))
except OGIPFormatError:
    pass
else:
    raise SystemExit(1)
""", 'some keywords present, one missing', 'files that do not follow the standard')
