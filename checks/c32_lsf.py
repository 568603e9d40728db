"""Line spread functions: parameter tables, models at any wavelength, matrices, fits."""
from symx.worker import registry

HARNESSES, harness = registry()
NEEDS = ['marxs.reduction.lsfparm', 'marxs.reduction.ogip']
ASSUMPTIONS = [
    'Profiles of sherpa are replaced by objects with the same parameters whose values are '
    'arbitrary numbers; scipy interpolation is replaced by straight lines between the nodes.',
    'Up to 3 components, 3 wavelengths, 2 widths and 4 channels.',
]


class Par:
    def __init__(self, val=1):
        self.val = val
        self.frozen = False


class Model:
    """model with parameters; sums and products have parts"""
    name = None
    pars = ('ampl', 'fwhm', 'pos')

    def __init__(self, name=None):
        object.__setattr__(self, 'name', name)
        for n in self.pars:
            object.__setattr__(self, n, Par())

    def __setattr__(self, k, v):
        if k in self.pars:
            getattr(self, k).val = v if isinstance(v, (int, float)) or not getattr(
                v, 'shape', ()) else v.ravel()[0]
        else:
            object.__setattr__(self, k, v)

    def __add__(self, o):
        return Both('+', self, o)

    def __mul__(self, o):
        return Both('*', self, o)


class Both(Model):
    pars = ()

    def __init__(self, op, *parts):
        object.__setattr__(self, 'op', op)
        object.__setattr__(self, 'parts', parts)

    def __call__(self, *a):
        x, y = [p(*a) for p in self.parts]
        return x + y if self.op == '+' else x * y


class Scale(Model):
    pars = ('c0',)

    def __call__(self, *a):
        return self.c0.val


class Gauss(Model):
    pass


class Lorentz(Model):
    pass


def profiles(env):
    sm, sa = __import__('sherpa.models').models, __import__('sherpa.astro.models').astro.models
    env.patch(sm, 'NormGauss1D', Gauss)
    env.patch(sm, 'Scale1D', Scale)
    env.patch(sa, 'Lorentz1D', Lorentz)


def fwhm(env, kind):
    """ratio of full width at half maximum and sigma"""
    import math
    return env.num(2 * math.sqrt(2 * math.log(2))) if kind == 'G' else env.num(1)


NAME = {'G': 'GAUSS%d', 'L': 'LORENTZ%d'}


def components(env):
    kinds = env.choice('components', ['G', 'LG', 'GLG'])
    return [(k, NAME[k] % (kinds[:i + 1].count(k))) for i, k in enumerate(kinds)]


class Tab:
    """parameters [row][width, wavelength, parameter]"""
    def __init__(self, env, cols, one=None):
        self.cols, self.env = cols, env
        self.colnames = list(cols)

    def __getitem__(self, k):
        return self.cols[k]


@harness(timeout=60)
def convert(env):
    """parameters of models are stored as numbers of a table and back: same positions and widths,
    amplitudes with a sum of one, in the row, width and wavelength asked for."""
    m = env.imp('marxs.reduction.lsfparm')
    profiles(env)
    comps = components(env)
    row, iwidth, iwave = [env.choice(n, [0, 1]) for n in ('row', 'width', 'wave')]
    vals = {n: [env.positive('%s_ampl' % n, hi=9), env.positive('%s_fwhm' % n, hi=9),
                env.real('%s_pos' % n, -9, 90)] for _, n in comps}
    model = None
    for k, n in comps:
        c = (Gauss if k == 'G' else Lorentz)(n)
        c.ampl, c.fwhm, c.pos = vals[n]
        model = c if model is None else model + c
    d = m.sherpa2caldb(model)
    env.check('each component', sorted(d) == sorted(n for _, n in comps))
    for k, n in comps:
        env.check_eq('amplitude', d[n][0], vals[n][0])
        env.check_near('sigma', d[n][1] * fwhm(env, k), vals[n][1], 1e-9)
        env.check_eq('position', d[n][2], vals[n][2])
    bad = model + Scale('EE_FRACS')
    env.check('other components', env.raises(Exception, lambda: m.sherpa2caldb(bad)))
    eef = env.real('eef', 0, 1)

    def cell(v, j):
        """v in the cell asked for, other numbers elsewhere"""
        import numpy as np
        a = np.empty((2, 2) + ((3,) if j else ()), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = env.num(7 + sum(i))
        for i in range(3):
            if j:
                a[iwidth, iwave, i] = v[i]
        if not j:
            a[iwidth, iwave] = v
        b = np.vectorize(lambda x: env.num(5), otypes=[object])(a)
        if not env.symbolic:
            a, b = a.astype(float), b.astype(float)
        return [a, b] if row == 0 else [b, a]
    cols = {'NUM_WIDTHS': [2, 2], 'EE_FRACS': cell(eef, 0)}
    for _, n in comps:
        cols[n + '_PARMS'] = cell(d[n], 1)
    if env.choice('columns', [0, 1]):
        cols = dict(reversed(cols.items()))
    out = m.caldb2sherpa(Tab(env, cols), row, iwidth, iwave)
    parts = m.flatten_sherpa_model(out)
    env.check_eq('fraction', parts[0].c0.val, eef)
    env.check('fraction is fixed', parts[0].c0.frozen is True and out.op == '*')
    env.check('each component once',
              sorted(p.name for p in parts[1:]) == sorted(n + '_PARMS' for _, n in comps))
    tot = 0
    for _, n in comps:
        tot = tot + vals[n][0]
    for k, n in comps:
        p = [p for p in parts[1:] if p.name == n + '_PARMS'][0]
        env.check('kind', type(p) is (Gauss if k == 'G' else Lorentz))
        env.check_near('width', p.fwhm.val, vals[n][1], 1e-9)
        env.check_eq('position', p.pos.val, vals[n][2])
        env.check_eq('amplitude', p.ampl.val * tot, vals[n][0])


def lines(env, m):
    """scipy's interp1d as straight lines"""
    from scipy import interpolate
    import numpy as np

    def init(self, x, y, kind='linear', axis=-1, **kw):
        # attributes of scipy are hidden by plain ones
        y = np.asarray(y, dtype=object) if env.symbolic else np.asarray(y)
        self.__dict__['nodes'] = ([float(v) for v in np.asarray(x).ravel()], y, kind)

    def call(self, e):
        x, y, kind = self.__dict__['nodes']
        env.check('interpolation', kind == 'linear' and len(x) == y.shape[-1])
        for k in range(len(x) - 1):
            if k == len(x) - 2 or e <= x[k + 1]:
                a, b = y[..., k], y[..., k + 1]
                return a + (b - a) * ((e - x[k]) / (env.num(x[k + 1]) - env.num(x[k])))
    env.patch(interpolate.interp1d, '__init__', init)
    env.patch(interpolate.interp1d, '__call__', call)


def parameters(env, comps, waves, free, nw):
    """row of a table with nw widths; returns row and parameters per width and wavelength"""
    par, n = {}, len(waves)
    cols = {'NUM_WIDTHS': nw, 'WIDTHS': env.arr([1, 5][:nw]), 'NUM_LAMBDAS': n,
            'LAMBDAS': env.arr(waves)}
    eef = [[env.real('eef%d%d' % (j, i), 0, 1) for i in range(n)] for j in range(nw)]
    cols['EE_FRACS'] = env.arr(eef)
    for k, c in comps:
        if c == free:
            par[c] = [[[env.positive('%s_%d%d_%s' % (c, j, i, q), hi=h)
                        for q, h in (('a', 9), ('s', 9), ('p', 90))] for i in range(n)]
                      for j in range(nw)]
        else:
            par[c] = [[[env.num(1 + i + j), env.num(2 + i + j * j) / 9, env.num(w + j) / 3]
                       for i, w in enumerate(waves)] for j in range(nw)]
        cols[c + '_PARMS'] = env.arr(par[c])
    row = Tab(env, cols)
    row.meta = {}
    return row, eef, par


@harness(timeout=80)
def between(env):
    """the model at any wavelength and extraction width: every parameter is interpolated in the
    table on its own, widths are full widths, amplitudes have a sum of one."""
    m = env.imp('marxs.reduction.lsfparm')
    import astropy.units as u
    profiles(env)
    lines(env, m)
    comps = components(env)
    free = env.choice('free', [n for _, n in comps])
    waves = [10, 20, 25]
    nw = env.choice('widths', [1, 2])
    row, eef, par = parameters(env, comps, waves, free, nw)
    s = m.CALDB_interp(row, kind='linear')
    env.check('names', sorted(s) == sorted(['EE_FRACS'] + [n + '_PARMS' for _, n in comps]))
    i, w = env.choice('where', [(0, 10), (0, 16), (1, 20), (1, 22), (1, 25)])
    x = env.choice('width', [1, 2, 5]) if nw > 1 else 1
    model = m.sherpa_from_spline(s, u.Quantity(x, u.degree), u.Quantity(w, u.Angstrom))
    f = env.num(w - waves[i]) / (waves[i + 1] - waves[i])
    g = env.num(x - 1) / 4

    def at(v):
        r = [t[i] + (t[i + 1] - t[i]) * f for t in v]
        return r[0] if nw == 1 else r[0] + (r[1] - r[0]) * g

    def number(v):
        return v.ravel()[0] if getattr(v, 'shape', ()) else v
    parts = m.flatten_sherpa_model(model)
    env.check_eq('fraction', number(parts[0].c0.val), at(eef))
    env.check('fraction is fixed', parts[0].c0.frozen is True and model.op == '*')
    env.check('each component once',
              sorted(p.name for p in parts[1:]) == sorted(n + '_PARMS' for _, n in comps))

    def par_at(n, q):
        return at([[v[q] for v in t] for t in par[n]])
    tot = 0
    for _, n in comps:
        tot = tot + par_at(n, 0)
    for k, n in comps:
        p = [p for p in parts[1:] if p.name == n + '_PARMS'][0]
        env.check('kind', type(p) is (Gauss if k == 'G' else Lorentz))
        env.check_near('width', p.fwhm.val, par_at(n, 1) * fwhm(env, k), 1e-9)
        env.check_eq('position', p.pos.val, par_at(n, 2))
        env.check_eq('amplitude', p.ampl.val * tot, par_at(n, 0))


@harness(timeout=80)
def matrix(env):
    """each row of the matrix is the profile at the wavelength in the middle of the row,
    integrated over every channel, in order of increasing energy."""
    m = env.imp('marxs.reduction.lsfparm')
    og = env.imp('marxs.reduction.ogip')
    import astropy.units as u
    from .c21_response import hc
    env.patch(og, '_check_col_and_type', lambda *a: None)
    n = 3
    E = [env.num(1) / 2, env.num(1), env.num(5) / 4, env.num(2)]
    down = env.choice('down', [False, True])
    thr = env.choice('threshold', [env.num(1) / 10, env.num(1) / 3])
    k0 = env.choice('row', [0, 1, 2])
    vals = [[env.real('p%d' % i, 0, 1) if k == k0 else env.num(1 + k + 3 * i) / 10
             for i in range(n)] for k in range(n)]
    row = Tab(env, {})
    row.meta = {'TELESCOP': 'a', 'TG_M': -1, 'OTHER': 5, 'INSTRUME': 'b', 'FILTER': 'c'}
    made = []
    splines = object()
    asked = []
    env.patch(m, 'CALDB_interp', lambda r, **kw: asked.append((r, kw)) or splines)
    width = u.Quantity(2, u.degree)

    def number(x):
        return x.to(u.Angstrom).value if isinstance(x, u.Quantity) else x

    def model(s, w, wave):
        env.check('table', s is splines)
        env.check('extraction width', w is width)
        k = len(made)

        def f(lo, hi):
            made.append((wave, [number(x) for x in lo], [number(x) for x in hi]))
            return env.arr(vals[k][::-1])
        return f
    env.patch(m, 'sherpa_from_spline', model)
    if env.symbolic:
        real = og.RMF.ebounds_from_edges

        def edges(e):
            t = real(e)
            for c in ('E_MIN', 'E_MAX'):
                t[c] = u.Quantity(env.arr(list(getattr(t[c], 'value', t[c]))), u.keV)
            return t
        env.patch(og.RMF, 'ebounds_from_edges', staticmethod(edges))
    q = u.Quantity(env.arr(E[::-1] if down else E), u.keV)
    r = m.make_rmf(row, q, width, threshold=thr, kw_interp={'kind': 'quadratic'})
    env.check('interpolation', len(asked) == 1 and asked[0][0] is row and
              asked[0][1] == {'kind': 'quadratic'})
    env.check('rows', len(made) == n and len(r.matrix) == len(r.ebounds) == n)
    for k in range(n):
        wave, lo, hi = made[k]
        env.check_near('middle', number(wave), hc(env) * (1 / E[k] + 1 / E[k + 1]) / 2, 1e-5)
        for i in range(n):
            # increasing wavelength
            env.check_near('shortest wavelength of the channel', lo[n - 1 - i] * E[i + 1],
                           hc(env), 1e-5)
            env.check_near('longest wavelength of the channel', hi[n - 1 - i] * E[i], hc(env),
                           1e-5)
        mid = (E[k] + E[k + 1]) / 2
        lo, hi, full = r.full_rmf(u.Quantity(env.arr([mid]), u.keV)[0])
        for i in range(n):
            v = vals[k][i]
            env.check_eq('response', full[i], v if v > thr else 0)
            env.check_eq('lower energy', u.Quantity(lo)[i].to(u.keV).value, E[i])
            env.check_eq('upper energy', u.Quantity(hi)[i].to(u.keV).value, E[i + 1])
    for t in (r.matrix, r.ebounds):
        env.check('keywords', t.meta['TELESCOP'] == 'a' and t.meta['TG_M'] == -1 and
                  'OTHER' not in t.meta and t.meta['CHANTYPE'] == 'PHA')
    env.check('channels', r.matrix.meta['DETCHANS'] == n)


@harness(timeout=60)
def fitted(env):
    """the histogram that is fitted: sum of probabilities in bins around the mean, uncertainties
    are their roots but at least one."""
    m = env.imp('marxs.reduction.lsfparm')
    import astropy.units as u
    import sherpa.fit
    import sherpa.data
    from sherpa import stats, optmethods
    made = {}

    class Data:
        def __init__(self, name, lo, hi, y, staterror=None):
            self.lo, self.hi, self.y, self.e = lo, hi, y, staterror

    class Fit:
        def __init__(self, data, model, stat=None, method=None):
            made.update(data=data, model=model, stat=stat, method=method)

        def fit(self):
            return 'result'
    env.patch(sherpa.fit, 'Fit', Fit)
    env.patch(sherpa.data, 'Data1DInt', Data)
    x = env.choice('places', [[0, 1, 5, 2], [3, 3, -3, -3], [1, -1, 0, 0]])
    mean = env.num(sum(x)) / 4 / 1024 + 10
    w = [env.positive('w%d' % i, hi=9) for i in range(4)]
    col = env.choice('column', ['tg_mlam', 'lam'])
    bin_, half = env.num(1) / 512, env.num(1) / 128
    evt = {'tg_mlam': u.Quantity(env.arr([3, 3, 3, 3]), u.Angstrom), 'probability': env.arr(w)}
    evt[col] = u.Quantity(env.arr([10 + env.num(v) / 1024 for v in x]), u.Angstrom)
    model, stat = object(), object()
    own = env.choice('statistic', [False, True])
    kw = {'stat': stat, 'method': stat} if own else {}
    data, res = m.fit_LSF(evt, model, wavebin=bin_ if env.symbolic else float(bin_),
                          d_wave=half if env.symbolic else float(half), colname=col, **kw)
    env.check('result', res == 'result' and made['data'] is data and made['model'] is model)
    if own:
        env.check('statistic', made['stat'] is stat and made['method'] is stat)
    else:
        env.check('statistic', isinstance(made['stat'], stats.LeastSq) and
                  isinstance(made['method'], optmethods.LevMar))
    env.check('bins', len(data.y) == 7)
    for k in range(7):
        lo = mean - half + k * bin_
        env.check_near('lower edge', data.lo[k], lo, 1e-9)
        env.check_near('upper edge', data.hi[k], lo + bin_, 1e-9)
        tot = env.num(0)
        for v, p in zip(x, w):
            e = 10 + env.num(v) / 1024
            if e >= lo and (e < lo + bin_ or (k == 6 and e <= lo + bin_)):
                tot = tot + p
        env.check_eq('counts', data.y[k], tot)
        e = data.e[k]
        env.check('uncertainty', env.or_(env.and_(tot <= 1, env.eq(e, 1)),
                                         env.and_(tot >= 1, env.eq(e * e, tot))))


@harness(timeout=40)
def empty(env):
    """new table: one row with space for every width, wavelength and component; names have to be
    unique and components known."""
    m = env.imp('marxs.reduction.lsfparm')
    profiles(env)
    made = []

    class Column:
        def __init__(self, data=None, name=None, dtype=None, shape=(), length=0, unit=None):
            self.data, self.name, self.shape, self.length = data, name, shape, length
            self.unit = unit

    class Table:
        def __init__(self):
            self.meta, self.c = {}, {}

        def add_column(self, c):
            env.check('once', c.name not in self.c)
            self.c[c.name] = c
    env.patch(m, 'Column', Column)
    env.patch(m, 'Table', Table)
    comps = components(env)
    problem = env.choice('problem', [None, 'twice', 'kind'])
    model = None
    for k, n in comps:
        c = (Gauss if k == 'G' else Lorentz)(n)
        model = c if model is None else model + c
    if problem == 'twice':
        model = model + Lorentz(comps[0][1])
    elif problem == 'kind':
        model = model + Scale('GAUSS9')
    nw = env.choice('widths', [1, 2])
    a = env.real('w0', 1, 20)
    d = env.real('d', 1, 9)
    waves = env.arr([a, a + d, a + d + 2])
    widths = env.arr([1, 2][:nw])

    def call():
        return m.empty_lsfparmtable(widths, waves, model, 'HEG', -2)
    if problem:
        env.check('refused', env.raises(ValueError, call))
        return
    t = call()
    c = t.c
    env.check('numbers', list(c['NUM_WIDTHS'].data) == [nw] and list(c['NUM_LAMBDAS'].data) == [3])
    env.check_vec('widths', list(c['WIDTHS'].data[0]), list(widths))
    env.check_vec('wavelengths', list(c['LAMBDAS'].data[0]), list(waves))
    for i in range(3):
        lo, hi = c['TG_LAM_LO'].data[0][i], c['TG_LAM_HI'].data[0][i]
        env.check_lt('box', lo, waves[i])
        env.check_lt('box', waves[i], hi)
        if i < 2:
            env.check_lt('boxes overlap', c['TG_LAM_LO'].data[0][i + 1], hi)
    env.check('fractions', c['EE_FRACS'].shape == (nw, 3) and c['EE_FRACS'].length == 1)
    par = [n for n in c if n.endswith('_PARMS')]
    env.check('each component', sorted(par) == sorted(n + '_PARMS' for _, n in comps))
    for n in par:
        env.check('space', c[n].shape == (nw, 3, 3) and c[n].length == 1)
        env.check('can be read', bool(m.modelnames.match(n)))
    env.check('order', t.meta['ORDER'] == t.meta['TG_M'] == -2 and t.meta['EXTNAME'] == 'HEG')


@harness(timeout=80)
def files(env):
    """matrices are the same after they are written and read; without the keywords that are
    required they are not written; the number of the first channel can be set."""
    import copy
    import numpy as np
    import astropy.units as u
    from .c21_response import matrix
    which = env.choice('rows', ['one', 'many', 'empty', 'single'])
    t0 = env.choice('first', [0, 1])
    og = env.imp('marxs.reduction.ogip')
    r, rows, val, edges, ch = matrix(env, which, 'lists', t0)
    disk = {}

    class HDUs(list):
        def writeto(self, name, overwrite=False, checksum=False):
            env.check('overwrite', overwrite is keep)
            disk[name] = {t.meta['EXTNAME']: t for t in self if t is not None}

    class Fits:
        HDUList = HDUs
        PrimaryHDU = staticmethod(lambda: None)

        @staticmethod
        def table_to_hdu(t):
            for c in t.colnames:
                if t[c].dtype == object and not env.symbolic:
                    raise TypeError('objects cannot be written')
            t = t.copy()
            t.meta = dict(t.meta)
            return t
    env.patch(og, 'fits', Fits)

    def read(cls, name, format=None, hdu=None):
        t = disk[name][hdu]
        out = t.copy()
        out.meta = dict(t.meta)
        # vectors of one number are read as numbers
        for c in ('F_CHAN', 'N_CHAN', 'MATRIX'):
            if c in out.colnames and out[c].shape[1:] == (1,) and c != 'MATRIX':
                out[c] = out[c][:, 0]
        return out
    env.patch(og.ColOrKeyTable, 'read', classmethod(read))
    keep = env.choice('overwrite', [False, True])
    gone = env.choice('missing', [None, ('matrix', 'TLMIN4'), ('ebounds', 'CHANTYPE'),
                                  ('matrix', 'INSTRUME'), ('ebounds', 'TLMIN1')])
    if gone:
        del getattr(r, gone[0]).meta[gone[1]]
        env.check('refused', env.raises(og.OGIPFormatError,
                                        lambda: r.write('a.rmf', overwrite=keep)))
        env.check('nothing is written', not disk)
        if 'TLMIN' not in gone[1]:
            return
        kw = {'TLMIN': t0}
    else:
        kw = env.choice('first channel', [{}, {'TLMIN': t0}])
    r.write('a.rmf', overwrite=keep, **kw)
    if not env.symbolic:      # numbers are never objects
        r.write('a.rmf', overwrite=keep, **kw)
    env.check('one file', list(disk) == ['a.rmf'] and
              sorted(disk['a.rmf']) == ['EBOUNDS', 'MATRIX'])
    m, e = disk['a.rmf']['MATRIX'].meta, disk['a.rmf']['EBOUNDS'].meta
    env.check('first channel', m['TLMIN4'] == e['TLMIN1'] == t0)
    env.check('class of the tables', m['HDUCLAS2'] == 'RSP_MATRIX' and
              e['HDUCLAS2'] == 'EBOUNDS' and
              all(t['HDUCLASS'] == 'OGIP' and t['HDUCLAS1'] == 'RESPONSE' for t in (m, e)))
    k = env.choice('row', list(range(len(rows))))
    mid = (edges[k] + edges[k + 1]) / 2
    q = u.Quantity(env.arr([mid]), u.keV)[0]
    want, j = [0] * 5, 0
    for f, n in rows[k]:
        for i in range(n):
            want[f + i] = val[k][j]
            j += 1
    for x in (r, og.RMF.read('a.rmf')):
        lo, hi, full = x.full_rmf(q)
        env.check('all channels', len(full) == 5)
        for i in range(5):
            env.check_near('response', full[i], want[i], 1e-6)
            env.check_eq('lower edge', u.Quantity(lo)[i].to(u.keV).value, ch[i])
            env.check_eq('upper edge', u.Quantity(hi)[i].to(u.keV).value, ch[i + 1])
        env.check('keywords', x.matrix.meta['DETCHANS'] == 5 and
                  x.matrix.meta['CHANTYPE'] == 'PHA')


@harness(timeout=40)
def areas(env):
    """effective areas are written with their values and keywords, or not at all if a keyword
    is missing."""
    og = env.imp('marxs.reduction.ogip')
    from astropy.table import QTable
    import astropy.units as u
    v = [env.real('v%d' % i, 0, 9) for i in range(2)]
    seen = []
    env.patch(QTable, 'write', lambda self, *a, **kw: seen.append((self, a, kw)))
    a = og.ARF()
    a['ENERG_LO'] = u.Quantity(env.arr([1, 2]), u.keV)
    a['ENERG_HI'] = u.Quantity(env.arr([2, 3]), u.keV)
    a['SPECRESP'] = u.Quantity(env.arr([v[0], v[0] + 1 + v[1]]), u.cm**2)
    keys = ['TELESCOP', 'INSTRUME', 'FILTER']
    a.meta.update({k: k.lower() for k in keys})
    gone = env.choice('missing', [None] + keys)
    over = env.choice('overwrite', [{}, {'overwrite': True}])
    if gone:
        del a.meta[gone]
        env.check('refused', env.raises(og.OGIPFormatError, lambda: a.write('x', **over)))
        env.check('nothing is written', not seen)
        return
    a.write('x', **over)
    env.check('written once', len(seen) == 1)
    t, arg, kw = seen[0]
    env.check('name', arg == ('x',) and kw == dict(over, format='fits'))
    for i in range(2):
        env.check_eq('area', u.Quantity(t['SPECRESP'])[i].to(u.cm**2).value, v[0] + i * (1 + v[1]))
    env.check('class', t.meta['EXTNAME'] == 'SPECRESP' and t.meta['HDUCLAS1'] == 'RESPONSE' and
              t.meta['HDUCLAS2'] == 'SPECRESP' and t.meta['HDUCLASS'] == 'OGIP')
    env.check('keywords', all(t.meta[k] == k.lower() for k in keys))
    bad = og.ARF({'ENERG_LO': [1., 2], 'SPECRESP': [1., 2]})
    good = og.ARF({'ENERG_LO': [1., 2], 'ENERG_HI': [1., 2], 'SPECRESP': [1., 2]})
    which = env.choice('read', [bad, good])
    asked = []
    env.patch(QTable, 'read', classmethod(lambda c, *a, **k: asked.append((a, k)) or which))
    if which is bad:
        env.check('columns are checked', env.raises(og.OGIPFormatError, lambda: og.ARF.read('y')))
    else:
        env.check('read', og.ARF.read('y') is good)
    env.check('file', asked == [(('y',), {'format': 'fits'})])
