AG = 'marxs/analysis/gratings.py'
AN = 'marxs/analysis/analysis.py'

B('c23-turns', 'C23', [(AG,
  "    indminus = np.isclose(np.mod(angle, 2 * np.pi), 2 * np.pi - ang_0, atol=max_ang)\n",
  "    indminus = np.isclose(np.mod(-angle, np.pi), ang_0, atol=max_ang) & (np.mod(angle, 2 * np.pi) > np.pi)\n")], '''
import numpy as np
from marxs.analysis.gratings import identify_photon_in_subaperture
a = np.deg2rad([45., 135., 225., 315., 10., 190.])
i = identify_photon_in_subaperture(a, np.deg2rad(5), np.deg2rad(135))
assert list(i) == [False, True, True, False, False, False], i
i = identify_photon_in_subaperture(a, np.deg2rad(5), np.deg2rad(225))
assert list(i) == [False, True, True, False, False, False], i
i = identify_photon_in_subaperture(np.deg2rad([1., -4., 4.]), np.deg2rad(5), 0.)
assert list(i) == [True, True, True], i
''', 'an angle of the sub-aperture of more than half a turn', 'photons in the mirrored sector are not found')

B('c23-unsorted', 'C23', [(AG,
  "        weights[i, :] = np.interp(energy, gratingeff.energy[en_sort],\n                                  gratingeff.prob[:, ind_o[0]][en_sort])",
  "        weights[i, :] = np.interp(energy, np.sort(gratingeff.energy),\n                                  gratingeff.prob[:, ind_o[0]][::int(np.sign(en_sort[-1] - en_sort[0]))][np.argsort(en_sort)])")], '''
import numpy as np
from types import SimpleNamespace
from marxs.analysis import weighted_per_order
e = SimpleNamespace(energy=np.array([4., 1., 2., 3.]), orders=np.array([0, 1]),
                    prob=np.array([[.1, .9], [.4, .1], [.3, .2], [.2, .3]]))
w = weighted_per_order(np.array([[1.], [2.]]), [0, 1], np.array([1.]), e)
assert np.isclose(w[0], (.4 + .2) / .5), w
''', 'efficiency tables that are not sorted by energy', 'weights of other energies are used')

B('c23-robust-width', 'C23', [(AG,
  "    return results[ind, ind_n], positions[ind, ind_n], stds[ind, ind_n]",
  "    return results[ind, ind_n], positions[ind, ind_n], stds.min(axis=0)")], '''
import numpy as np
from marxs.analysis import gratings
t = {'a': (np.array([10.]), np.array([5.]), np.array([3.])),
     'b': (np.array([20.]), np.array([5.]), np.array([1.]))}
gratings.resolvingpower_from_photonlist = lambda ph, o, col, zeropos, ordercol: t[col]
r, p, s = gratings.resolvingpower_from_photonlist_robust([0, 0], [1], ['a', 'b'], [0, 0])
assert (r[0], p[0], s[0]) == (10., 5., 3.), (r, p, s)
''', 'lists with different widths', 'the width does not belong to the resolving power')

