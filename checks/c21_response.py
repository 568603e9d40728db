"""Response matrices: groups of channels, rows, energies, Gaussian responses, keyword columns."""
from symx.worker import registry

HARNESSES, harness = registry()
NEEDS = ['marxs.reduction.ogip', 'marxs.reduction.lsfparm']
ASSUMPTIONS = [
    'Up to 5 channels, 3 energies and 3 groups of channels per row; values, edges and energies '
    'are symbolic. Reading and writing of files and the profiles (sherpa) are not part of the '
    'check; the profile of each row is an arbitrary function of the edges of the channel.',
]
KEV = 12398419843320025


def hc(env):
    return env.num(KEV) / 10 ** 15


@harness(timeout=60)
def groups(env):
    """any row of a matrix, threshold and number of the first channel."""
    og = env.imp('marxs.reduction.ogip')
    v = [env.real('v%d' % i, 0, 1) for i in range(5)]
    thr = env.real('thr', 0, env.num(1) / 2)
    t0 = env.choice('first', [0, 1, 7])
    n, first, num, mat = og.RMF.arr_to_rmf_matrix_row(env.arr(v), t0, threshold=thr)
    env.check('number of groups', n == len(first) == len(num))
    full = [0] * 5
    k = 0
    for f, m in zip(first, num):
        env.check('groups are not empty', m > 0)
        for j in range(m):
            full[f - t0 + j] = mat[k]
            k += 1
    env.check('all values are in groups', k == len(mat))
    for i in range(1, n):
        env.check('groups are in order and apart', first[i] > first[i - 1] + num[i - 1])
    for i in range(5):
        env.check_eq('value of channel %d' % i, full[i], v[i] if v[i] > thr else 0)


ROWS = {   # groups of channels (start, number) in each row
    'one': [[(0, 2)], [(1, 3)], [(3, 1)]],
    'many': [[(0, 1), (2, 2)], [(1, 2)], [(0, 1), (2, 1), (4, 1)]],
    'empty': [[(1, 2)], [], [(0, 5)]],
    'single': [[(0, 1), (3, 2)]],
}


def matrix(env, which, form, t0):
    """An RMF of 5 channels; rows as named in ROWS."""
    import numpy as np
    from astropy.table import Table
    import astropy.units as u
    og = env.imp('marxs.reduction.ogip')
    rows = ROWS[which]
    n = len(rows)
    val = [[env.real('m%d_%d' % (i, j), env.num(1) / 100, 1) for j in range(sum(k for _, k in r))]
           for i, r in enumerate(rows)]
    lo = env.real('lo', 1, 2)
    w = [env.real('w%d' % i, env.num(1) / 10, 2) for i in range(n)]
    edges = [lo]
    for x in w:
        edges.append(edges[-1] + x)
    ch = [env.num(1) / 2 + i * env.num(3) / 2 for i in range(6)]

    def objs(l):
        a = np.empty(len(l), dtype=object)
        for i, x in enumerate(l):
            a[i] = x
        return a
    m = Table({'ENERG_LO': env.arr(edges[:-1]), 'ENERG_HI': env.arr(edges[1:]),
               'N_GRP': np.array([len(r) for r in rows], dtype=np.int16),
               'F_CHAN': objs([[a + t0 for a, b in r] for r in rows]),
               'N_CHAN': objs([[b for a, b in r] for r in rows]), 'MATRIX': objs(val)})
    m['ENERG_LO'].unit = u.keV
    m['ENERG_HI'].unit = u.keV
    e = og.ColOrKeyTable({'CHANNEL': np.arange(t0, t0 + 5, dtype=np.int32),
                          'E_MIN': env.arr(ch[:-1]), 'E_MAX': env.arr(ch[1:])})
    for c in ('E_MIN', 'E_MAX'):
        e[c].unit = u.keV
    kw = {'TELESCOP': 'a', 'INSTRUME': 'b', 'FILTER': 'c'}
    m.meta.update(kw, TLMIN4=t0)
    e.meta.update(kw, TLMIN1=t0)
    env.patch(og, '_check_col_and_type', lambda *a: None)
    r = og.RMF(m, e, CHANTYPE='PHA')
    if form == 'fixed':
        r.variable_length_to_fixed_length()
    return r, rows, val, edges, ch


@harness(timeout=80)
def lookup(env):
    """response for any energy: full and compressed, with lists and with fixed-length arrays,
    any number of the first channel; the number of channels differs from the number of rows."""
    import astropy.units as u
    which = env.choice('rows', ['one', 'many', 'empty', 'single'])
    form = env.choice('form', ['lists', 'fixed'])
    t0 = env.choice('first', [0, 1, 32766, 10**6])
    r, rows, val, edges, ch = matrix(env, which, form, t0)
    for t in (r.matrix, r.ebounds):
        env.check('number of channels', t.meta['DETCHANS'] == 5)
        env.check('type of channels', t.meta['CHANTYPE'] == 'PHA')
    k = env.choice('row', list(range(len(rows))))
    e = env.real('e', 1, 9)
    env.assume(e >= edges[k])
    env.assume(e < edges[k + 1])
    wave = env.choice('wave', [False, True])
    q = u.Quantity(env.arr([hc(env) / e if wave else e]), u.Angstrom if wave else u.keV)[0]
    if wave:         # rounding of the conversion
        env.assume(e > edges[k] + env.num(1) / 10 ** 6)
        env.assume(e < edges[k + 1] - env.num(1) / 10 ** 6)
    lo, hi, full = r.full_rmf(q)
    want = [0] * 5
    inside, j = [], 0
    for f, m in rows[k]:
        for i in range(m):
            want[f + i] = val[k][j]
            inside.append(f + i)
            j += 1
    env.check('all channels', len(full) == 5)
    for i in range(5):
        env.check_eq('full response %d' % i, full[i], want[i])
        env.check_eq('lower edge %d' % i, u.Quantity(lo)[i].to(u.keV).value, ch[i])
        env.check_eq('upper edge %d' % i, u.Quantity(hi)[i].to(u.keV).value, ch[i + 1])
    lo, hi, part = r.rmf(q)
    env.check('channels in groups', len(part) == len(lo) == len(hi) == len(inside))
    for j, i in enumerate(inside):
        env.check_eq('response', part[j], val[k][j])
        env.check_eq('lower edge', u.Quantity(lo)[j].to(u.keV).value, ch[i])
        env.check_eq('upper edge', u.Quantity(hi)[j].to(u.keV).value, ch[i + 1])
    if inside:
        lo, hi, part = r.rmf_angstrom(q)
        for j, i in enumerate(inside):
            env.check_eq('response', part[j], val[k][j])
            env.check_near('lower wavelength', u.Quantity(lo)[j].to(u.Angstrom).value * ch[i + 1],
                           hc(env), 1e-6)
            env.check_near('upper wavelength', u.Quantity(hi)[j].to(u.Angstrom).value * ch[i],
                           hc(env), 1e-6)


@harness(timeout=60)
def edges(env):
    """channels from any energies or wavelengths in any order."""
    import astropy.units as u
    og = env.imp('marxs.reduction.ogip')
    e = [env.real('e%d' % i, env.num(1) / 10, 10) for i in range(3)]
    for i in range(3):
        for j in range(i):
            env.assume((e[i] - e[j]) ** 2 > env.num(1) / 100)
    wave = env.choice('wave', [False, True])
    f = 1000 if env.choice('unit', [False, True]) else 1
    if wave:
        q = u.Quantity(env.arr([hc(env) / x * 10 / f for x in e]), u.nm if f == 1000 else u.Angstrom
                       ) if f == 1 else u.Quantity(env.arr([hc(env) / x / 10 for x in e]), u.nm)
        if f == 1:
            q = u.Quantity(env.arr([hc(env) / x for x in e]), u.Angstrom)
    else:
        q = u.Quantity(env.arr([x * f for x in e]), u.eV if f == 1000 else u.keV)
    b = og.RMF.ebounds_from_edges(q)
    env.check('number', len(b) == 2)
    s = sorted(e, key=Key)
    for i in range(2):
        env.check('channel number', b['CHANNEL'][i] == i)
        lo, hi = [u.Quantity(b[c])[i].to(u.keV).value for c in ('E_MIN', 'E_MAX')]
        if wave:
            env.check_near('lower edge', lo, s[i], 1e-6)
            env.check_near('upper edge', hi, s[i + 1], 1e-6)
        else:
            env.check_eq('lower edge', lo, s[i])
            env.check_eq('upper edge', hi, s[i + 1])


class Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


@harness(timeout=80)
def rows(env):
    """matrices from a profile: every row has the profile at the middle of the row, integrated
    over each channel, with energies in increasing order."""
    import astropy.units as u
    from astropy.table import Table
    og, ls = env.imp('marxs.reduction.ogip'), env.imp('marxs.reduction.lsfparm')
    n = 3
    log = []

    def profile(splines, width, wave):
        env.check('interpolators', splines is tab)
        log.append((width, wave.to(u.Angstrom).value))
        k = len(log) - 1

        def func(lo, hi):
            lo, hi = u.Quantity(lo), u.Quantity(hi)
            log[k] += ([x for x in lo.to(u.Angstrom).value], [x for x in hi.to(u.Angstrom).value])
            return env.arr([vals[k][i] for i in range(n)])
        return func
    k0 = env.choice('row', [0, 1, 2])
    vals = [[env.real('p%d' % i, 0, 1) if k == k0 else env.num(1 + k + 3 * i) / 10
             for i in range(n)] for k in range(n)]
    tab = object()
    row = Table({'NUM_WIDTHS': [1]}, meta={'TELESCOP': 'T', 'INSTRUME': 'I', 'FILTER': 'F',
                                           'ORDER': -2, 'other': 3})
    env.patch(ls, 'CALDB_interp', lambda r, **kw: tab)
    env.patch(ls, 'sherpa_from_spline', profile)
    env.patch(og, '_check_col_and_type', lambda *a: None)
    thr = env.choice('threshold', [env.num(1) / 10, env.num(1) / 3])
    w = [env.num(10), env.num(12), env.num(15), env.num(16)]
    if env.choice('down', [False, True]):
        w = w[::-1]
    width = 1 * u.deg
    r = ls.make_rmf(row[0], u.Quantity(env.arr(w), u.Angstrom), width, threshold=thr)
    w = sorted(w, key=Key)
    env.check('rows', len(r.matrix) == n and len(r.ebounds) == n and len(log) == n)
    E = [hc(env) / x for x in w[::-1]]
    for t in (r.matrix, r.ebounds):
        env.check('keywords', [t.meta[k] for k in ('TELESCOP', 'INSTRUME', 'FILTER', 'ORDER')] ==
                  ['T', 'I', 'F', -2])
        env.check('number of channels', t.meta['DETCHANS'] == n)
    for k in range(n):
        for a, b, t in (('ENERG_LO', 'ENERG_HI', r.matrix), ('E_MIN', 'E_MAX', r.ebounds)):
            env.check_near('lower edge', u.Quantity(t[a])[k].to(u.keV).value, E[k], 1e-6)
            env.check_near('upper edge', u.Quantity(t[b])[k].to(u.keV).value, E[k + 1], 1e-6)
        env.check('width', log[k][0] is width)
        env.check_near('middle of the row', log[k][1], (w[n - k] + w[n - 1 - k]) / 2, 1e-6)
        env.check('each profile is used once', len(log[k]) == 4)
        lo, hi = log[k][2:]
        for i in range(n):
            env.check_near('lower wavelength', lo[i], w[i], 1e-6)
            env.check_near('upper wavelength', hi[i], w[i + 1], 1e-6)
        lo, hi, full = r.full_rmf(u.Quantity(env.arr([(E[k] + E[k + 1]) / 2]), u.keV)[0])
        for i in range(n):
            v = vals[k][n - 1 - i]
            env.check_eq('response of row %d, channel %d' % (k, i), full[i], v if v > thr else 0)


@harness(timeout=60)
def sigmas(env):
    """Gaussian responses from widths in energy or wavelength, any units and order."""
    import astropy.units as u
    from astropy.table import QTable, Table
    og, ls = env.imp('marxs.reduction.ogip'), env.imp('marxs.reduction.lsfparm')
    n = 2
    w = [env.real('w%d' % i, 5, 20) for i in range(n)]
    s = [env.real('s%d' % i, env.num(1) / 100, 1) for i in range(n)]
    env.assume((w[0] - w[1]) ** 2 > env.num(1) / 100)
    got = {}

    def make(row, edges, width, **kw):
        got.update(row=row, edges=edges, width=width, kw=kw)
        return 'the matrix'
    env.patch(ls, 'make_rmf', make)
    form = env.choice('form', ['wave', 'nm', 'energy', 'energy in eV'])
    Q = lambda v, unit: u.Quantity(env.arr(v), unit)
    if form == 'wave':
        t = QTable({'wave': Q(w, u.Angstrom), 'sigma_wave': Q(s, u.Angstrom)})
    elif form == 'nm':
        t = QTable({'wave': Q([x / 10 for x in w], u.nm), 'sigma_wave': Q(s, u.Angstrom)})
    else:
        k = 1000 if 'eV' in form else 1
        t = QTable({'energy': Q([hc(env) / x for x in w], u.keV),
                    'sigma_energy': Q([b * hc(env) / a / a * k for a, b in zip(w, s)],
                                      u.eV if k == 1000 else u.keV)})
    edges = u.Quantity(env.arr([10, 11, 12]), u.Angstrom)
    thr = env.real('thr', 0, 1)
    res = og.RMF.from_Gauss_sigma(edges, t, threshold=thr)
    env.check('result', res == 'the matrix')
    env.check_eq('threshold', got['kw']['threshold'], thr)
    for i in range(3):
        env.check_eq('edges', u.Quantity(got['edges'])[i].to(u.Angstrom).value, 10 + i)
    row = got['row']
    if w[0] > w[1]:
        w, s = w[::-1], s[::-1]
    env.check('number', row['NUM_LAMBDAS'] == n and row['NUM_WIDTHS'] == 1)
    par, lam = row['GAUSS1_PARMS'], row['LAMBDAS']
    for i in range(n):
        env.check_near('wavelength', lam[i] if not hasattr(lam[i], 'unit') else lam[i].value,
                       w[i], 1e-6)
        env.check_near('position', par[0, i, 2], w[i], 1e-6)
        env.check_near('width', par[0, i, 1], s[i], 1e-6)
        env.check_eq('amplitude', par[0, i, 0], par[0, 0, 0])
        env.check_eq('enclosed fraction', row['EE_FRACS'][0, i], 1)


@harness(timeout=60)
def keywords(env):
    """columns that have the same value everywhere are keywords; whatever is set is what is
    read, also after several changes."""
    og = env.imp('marxs.reduction.ogip')
    t = og.ColOrKeyTable({'x': [1, 2]})
    a = [env.real('a%d' % i, -5, 5) for i in range(2)]
    b = [env.real('b%d' % i, -5, 5) for i in range(2)]
    for v in (a, b):
        env.assume(v[0] != v[1])
    how = env.choice('how', [['column'], ['number'], ['column', 'number'], ['number', 'column'],
                             ['constant', 'column'], ['column', 'constant'],
                             ['column', 'number', 'column'], ['number', 'constant']])
    val = None
    for i, k in enumerate(how):
        v = [a, b, a][i]
        val = v if k == 'column' else v[0]
        t['c'] = env.arr(v) if k == 'column' else env.arr([v[0]] * 2) if k == 'constant' else v[0]
    got = t['c']
    if how[-1] == 'column':
        env.check('is a column', 'c' in t.colnames)
        for i in range(2):
            env.check_eq('value', got[i], val[i])
    else:
        env.check('is a keyword', 'c' not in t.colnames and 'c' in t.meta)
        env.check_eq('value', got, val)
    env.check('other columns', list(t['x']) == [1, 2])


@harness(timeout=60)
def refused(env):
    """responses that lack any one of the columns or keywords of the format are refused when they
    are made and when they are written."""
    import numpy as np
    og = env.imp('marxs.reduction.ogip')
    import tempfile
    import os
    cols = {'matrix': ['ENERG_LO', 'ENERG_HI', 'N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'],
            'ebounds': ['CHANNEL', 'E_MIN', 'E_MAX'], 'arf': ['ENERG_LO', 'ENERG_HI', 'SPECRESP']}
    keys = ['TELESCOP', 'INSTRUME', 'FILTER', 'CHANTYPE']

    def tables():
        m = og.ColOrKeyTable({'ENERG_LO': [1., 2.], 'ENERG_HI': [2., 3.],
                              'N_GRP': np.array([1, 2], dtype=np.int32),
                              'F_CHAN': np.array([[0, 1], [1, 2]], dtype=np.int32),
                              'N_CHAN': np.array([[1, 2], [2, 1]], dtype=np.int32),
                              'MATRIX': np.array([[.1, .2], [.3, .4]])})
        e = og.ColOrKeyTable({'CHANNEL': np.arange(3, dtype=np.int32),
                              'E_MIN': [1., 2., 3.], 'E_MAX': [2., 3., 4.]})
        a = og.ARF({'ENERG_LO': [1., 2.], 'ENERG_HI': [2., 3.], 'SPECRESP': [4., 5.]})
        for t in (m, e, a):
            t.meta.update({k: 'x' for k in keys[:3]})
        return {'matrix': m, 'ebounds': e, 'arf': a}
    which = env.choice('table', ['none', 'matrix', 'ebounds', 'arf'])
    what = env.choice('what', ['column', 'keyword'])
    stage = env.choice('stage', ['made', 'written'])
    t = tables()
    name = None
    if which != 'none':
        name = env.choice('name', (cols[which] if what == 'column' else
                                   keys[:3] if which == 'arf' else keys))
        if which == 'arf' and what == 'column':
            return       # columns of an ARF are checked when it is read

    def drop(x):
        if name in cols['matrix'] + cols['ebounds'] + cols['arf']:
            x.remove_column(name)
        else:
            x.meta.pop(name, None)

    def go():
        if which in ('matrix', 'ebounds') and stage == 'made':
            drop(t[which])
        kind = {} if name == 'CHANTYPE' and stage == 'made' else {'CHANTYPE': 'PHA'}
        if kind == {}:       # only the other table has it
            t[{'matrix': 'ebounds', 'ebounds': 'matrix'}[which]].meta['CHANTYPE'] = 'PHA'
        r = og.RMF(t['matrix'], t['ebounds'], **kind)
        if which in ('matrix', 'ebounds') and stage == 'written':
            drop(t[which])
        if which == 'arf':
            drop(t['arf'])
        if stage == 'written' or which == 'arf':
            with tempfile.TemporaryDirectory() as d:
                r.write(os.path.join(d, 'rmf.fits'), TLMIN=0)
                t['arf'].write(os.path.join(d, 'arf.fits'))
    bad = env.raises(Exception, go)
    env.check('complete response is accepted' if which == 'none' else
              'refused without %s' % name, bad == (which != 'none'))
