"""Order sorting: regions in energy, fractions of photons in them, effective areas."""
import types

from symx.worker import registry

HARNESSES, harness = registry()
NEEDS = ['marxs.reduction.ogip', 'marxs.reduction.osip']
ASSUMPTIONS = [
    'Two energies, orders -6 to 6; energies, widths and fractions are symbolic. The distribution '
    'of detected energies is an arbitrary function of energy and true energy, or a normal '
    'distribution whose integral is an arbitrary function.',
    'Files are not written; tables are passed on as they are. An effective area is only restored '
    'from fractions that are not 0.',
]
KEV = 12398419843320025


def hc(env):
    return env.num(KEV) / 10 ** 15


def energies(env, form):
    import astropy.units as u
    e = [env.real('e%d' % i, env.num(1) / 10, 10) for i in range(2)]
    if form == 'wave':
        return e, u.Quantity(env.arr([hc(env) / x for x in e]), u.Angstrom)
    k = 1000 if form == 'eV' else 1
    return e, u.Quantity(env.arr([x * k for x in e]), u.eV if form == 'eV' else u.keV)


def kev(q, *i):
    import astropy.units as u
    return u.Quantity(q)[i].to(u.keV).value


class Dist:
    """Distribution of detected energies."""

    def __init__(self, env):
        import astropy.units as u
        self.u = u
        self.env = env
        self.f = env.func('cdf', 0, 1)
        self.lo = env.func('lo', env.num(1) / 10, 5)
        self.hi = env.func('hi', env.num(1) / 10, 5)
        self.calls = []
        self.frac = []

    def val(self, x):
        x = self.u.Quantity(x).to(self.u.keV, equivalencies=self.u.spectral()).value
        return list(self.env.np.atleast_1d(x))

    def cdf(self, x, loc):
        x, loc = self.val(x), self.val(loc)
        self.calls.append((x, loc))
        return self.env.arr([self.f(a, b) for a, b in zip(x, loc)])

    def interval(self, fraction, loc):
        self.frac.append(fraction)
        loc = self.val(loc)
        return self.u.Quantity(self.env.arr(
            [[e - self.lo(e) for e in loc], [e + self.hi(e) for e in loc]]), self.u.keV)


def region(env, d, e, order):
    """A sorting region with its limits from first principles."""
    import astropy.units as u
    o = env.imp('marxs.reduction.osip')
    kind = env.choice('kind', ['width', 'width in eV', 'distance', 'fraction', 'own'])
    if kind.startswith('width'):
        w = env.real('w', 0, 1)
        k = 1000 if 'eV' in kind else 1
        s = o.FixedWidthOSIP(u.Quantity(env.arr([w * k]), u.eV if k == 1000 else u.keV)[0],
                             ccd_redist=d)
        lim = [(x - w, x + w) for x in e]
    elif kind == 'distance':
        f = env.real('f', 0, 1)
        s = o.FractionalDistanceOSIP(f, ccd_redist=d)
        h = [f * x / abs(order) / 2 for x in e]
        lim = [(x - y, x + y) for x, y in zip(e, h)]
    elif kind == 'fraction':
        f = env.real('f', 0, 1)
        s = o.FixedFractionOSIP(f, ccd_redist=d)
        lim = [(x - d.lo(x), x + d.hi(x)) for x in e]
    else:
        a, b = env.real('a', 0, 1), env.real('b', 0, 1)

        class Own(o.OSIPBase):
            def osip_tab(self, chan_mid, order):
                return u.Quantity(env.arr([[a, a + 1], [b, b + 1]]), u.keV)
        s = Own(ccd_redist=d)
        lim = [(e[0] - a, e[0] + b), (e[1] - a - 1, e[1] + b + 1)]
    return s, kind, lim


@harness(timeout=60)
def regions(env):
    """limits and widths of any sorting region describe the same region, for energies in any
    unit and wavelengths."""
    form = env.choice('form', ['keV', 'eV', 'wave'])
    e, q = energies(env, form)
    order = env.choice('order', [-5, 1, 3])
    d = Dist(env)
    if form == 'wave':       # function of energy: only with exact conversion
        d.lo, d.hi = [lambda x: env.num(1) / 4] * 2
    s, kind, lim = region(env, d, e, order)
    r, t = s.osip_range(q, order), s.osip_tab(q, order)
    env.check('shape', r.shape == (2, 2) and t.shape == (2, 2))
    for i in range(2):
        env.check_near('lower limit', kev(r, 0, i), lim[i][0], 1e-6)
        env.check_near('upper limit', kev(r, 1, i), lim[i][1], 1e-6)
        env.check_near('lower width', kev(t, 0, i), e[i] - lim[i][0], 1e-6)
        env.check_near('upper width', kev(t, 1, i), lim[i][1] - e[i], 1e-6)
    if kind == 'fraction':
        env.check('fraction', all(env.same(x, s.fraction) for x in d.frac))


@harness(timeout=60)
def neighbours(env):
    """regions for a fraction of the distance of orders: at the same place on the detector the
    space between neighbouring orders that is covered is this fraction."""
    import astropy.units as u
    o = env.imp('marxs.reduction.osip')
    f = env.real('f', 0, 1)
    s = o.FractionalDistanceOSIP(f, ccd_redist=None)
    e1 = env.real('e1', env.num(1) / 10, 3)      # of order 1
    m = env.choice('order', [1, 2, 5, -1, -4])
    n = m + (1 if m > 0 else -1)
    r = [s.osip_range(u.Quantity(env.arr([e1 * abs(k)]), u.keV), k) for k in (m, n)]
    env.check_eq('covered', kev(r[0], 1, 0) - e1 * abs(m) + e1 * abs(n) - kev(r[1], 0, 0),
                 f * e1)
    env.check_le('regions do not overlap', kev(r[0], 1, 0), kev(r[1], 0, 0))
    t = o.FractionalDistanceOSIP(ccd_redist=None)
    r = [t.osip_range(u.Quantity(env.arr([e1 * abs(k)]), u.keV), k) for k in (m, n)]
    env.check_eq('by default, regions touch', kev(r[0], 1, 0), kev(r[1], 0, 0))


@harness(timeout=80)
def fractions(env):
    """fraction of photons of any true order in the region of any nominal order."""
    e, q = energies(env, env.choice('form', ['keV', 'eV']))
    o_nom = env.choice('nominal', [-4, 1, 2])    # exact ratios
    o_true = env.choice('true', [-6, -5, -4, -3, 0, 1, 2, 3, 5])
    d = Dist(env)
    s, kind, lim = region(env, d, e, o_nom)
    got = s.osip_factor(q, o_nom, o_true)
    if o_nom * o_true <= 0:
        for x in env.np.atleast_1d(got):
            env.check_eq('orders on different sides', x, 0)
        return
    for i in range(2):
        et = e[i] * o_true / o_nom
        env.check_eq('probability', got[i], d.f(lim[i][1], et) - d.f(lim[i][0], et))


@harness(timeout=60)
def gauss(env):
    """the normal distribution: standard normal of the distance in units of sigma, which is
    interpolated at the true energy."""
    import astropy.units as u
    from astropy.table import QTable
    det = env.imp('marxs.optics.detector')
    s = [env.real('s%d' % i, env.num(1) / 100, 1) for i in range(2)]
    fwhm = env.choice('fwhm', [False, True])
    k = env.num(det.CCDRedistNormal.fwhm2sig) if fwhm else 1
    t = QTable({'energy': u.Quantity(env.arr([0, 10]), u.keV),
                'FWHM' if fwhm else 'sigma': u.Quantity(env.arr([x * k * 1000 for x in s]), u.eV)})
    ccd = det.CCDRedistNormal(tab_width=t)
    loc, x = env.real('loc', 1, 9), env.real('x', 1, 9)
    seen = []
    z = env.num(3) / 2

    class N:
        def __call__(self, *a):
            return self

        def cdf(self, v, loc=0, scale=1):
            seen.append(v)
            return v
    n = N()
    from scipy.stats import norm
    N.interval = staticmethod(lambda a, *b: env.arr([-z, z]) if a == 0.75 else None)
    env.patch(det, 'norm', n)
    form = env.choice('form', ['keV', 'eV'])
    f = 1000 if form == 'eV' else 1
    un = u.eV if form == 'eV' else u.keV
    Q = lambda v: u.Quantity(env.arr([v * f]), un)
    sig = s[0] + (s[1] - s[0]) * loc / 10
    v = u.Quantity(ccd.cdf(Q(x), Q(loc))).to(u.dimensionless_unscaled).value
    env.check_near('distance in sigma', v[0] * sig, x - loc, 1e-6)
    r = ccd.interval(0.75, Q(loc))
    env.check_near('lower limit', kev(r, 0, 0), loc - z * sig, 1e-6)
    env.check_near('upper limit', kev(r, 1, 0), loc + z * sig, 1e-6)


@harness(timeout=80)
def areas(env):
    """effective areas after sorting: the fraction for the nominal order at the energy that
    falls on the same place, also if another sorting was applied before; keywords."""
    import astropy.units as u
    og, os_ = env.imp('marxs.reduction.ogip'), env.imp('marxs.reduction.osip')
    import logging
    e = [env.real('e%d' % i, env.num(1) / 2, 3) for i in range(2)]
    w = env.num(1) / 8
    a = [env.real('a%d' % i, 1, 100) for i in range(2)]
    m, order = env.choice('orders', [(3, 2), (-4, -5), (2, 2), (1, -1)])
    arf = og.ARF({'ENERG_LO': u.Quantity(env.arr([x - w for x in e]), u.keV),
                  'ENERG_HI': u.Quantity(env.arr([x + w for x in e]), u.keV),
                  'SPECRESP': u.Quantity(env.arr(a), u.cm ** 2)})
    arf.meta['ORDER'] = env.choice('text', [m, '%+d' % m])
    before = env.choice('before', ['nothing', 'column', 'number'])
    b = [env.real('b%d' % i, env.num(1) / 10, 1) for i in range(2)]
    if before == 'number':
        b = [b[0], b[0]]
    if before != 'nothing':
        arf['SPECRESP'] = u.Quantity(env.arr([x * y for x, y in zip(a, b)]), u.cm ** 2)
        arf['OSIPFAC'] = env.arr(b) if before == 'column' else b[0]
    files = {}
    env.patch(og.ARF, 'read', staticmethod(lambda name, **kw: arf))
    env.patch(og.ARF, 'write', lambda self, name, **kw: files.update({name: (self, kw)}))
    env.patch(os_, 'os', types.SimpleNamespace(makedirs=lambda *a, **k: None))
    f = env.func('frac', env.num(1) / 100, 1)
    calls = []

    class Own(os_.OSIPBase):
        osip_description = 'described'

        def osip_factor(self, q, o_nominal, o_true):
            calls.append((o_nominal, o_true))
            v = u.Quantity(q).to(u.keV).value
            if o_nominal * o_true <= 0:
                return 0.
            return env.arr([f(x) for x in v])
    s = Own(ccd_redist=None)
    s.apply_osip('in.arf', 'dir', order, outroot='pre', overwrite=True)
    env.check('one file', len(files) == 1)
    name = list(files)[0]
    out, kw = files[name]
    env.check('name', name == 'dir/pre_ccdord_%s_true_%s.arf' % (order, m))
    env.check('overwrite', kw.get('overwrite') is True)
    env.check('orders', calls == [(order, m)])
    fac = [f(x * order / m) if order * m > 0 else 0 for x in e]

    def each(c):
        v = out[c]
        v = v.to(u.cm ** 2).value if isinstance(v, u.Quantity) and c == 'SPECRESP' else v
        return [v, v] if env.np.ndim(v) == 0 else v
    for i in range(2):
        env.check_eq('fraction', each('OSIPFAC')[i], fac[i])
        env.check_eq('area', each('SPECRESP')[i], fac[i] * a[i])
        env.check_eq('energy', kev(out['ENERG_LO'], i), e[i] - w)
    env.check('area is a column', 'SPECRESP' in out.colnames)
    env.check('keywords', int(out.meta['TRUEORD']) == m and int(out.meta['CCDORDER']) == order
              and int(out.meta['ORDER']) == m and out.meta['OSIP'] == 'described')


@harness(timeout=60)
def files(env):
    """sets of orders: all areas that contribute to each order are used, once."""
    os_, og = env.imp('marxs.reduction.osip'), env.imp('marxs.reduction.ogip')
    orders = env.choice('orders', [[-3, -1], [1, 2], [4]])
    off = env.choice('offsets', [[-1, 0, 1], [0], [-2, 0, 2, 3]])
    missing = env.choice('missing', [None, 0, 2, -2])
    done, plots = [], []

    class Own(os_.OSIPBase):
        def apply_osip(self, inputarf, outpath, order, outroot='', overwrite=False):
            if missing is not None and '%+d.' % missing in inputarf:
                raise FileNotFoundError(inputarf)
            env.check('path', (outpath, outroot, overwrite) == ('out', 'o', True))
            done.append((inputarf, order))

        def plot_summary(self, *a):
            plots.append(a)

        def plot_summed_arf(self, *a):
            plots.append(a)
    s = Own(ccd_redist=None, offset_orders=off)
    s.apply_osip_all('in', 'out', orders, inroot='i', outroot='o', overwrite=True)
    want = [('in/i_%+d.arf' % (o + t), o) for o in orders for t in off
            if o * (o + t) > 0 and o + t != missing]
    env.check('files', sorted(done) == sorted(want))
    env.check('plots', (len(plots) == 2) == bool(want))
    name = og.filename_from_meta
    env.check('names', name(ORDER=3) == '_+3.fits' and name('arf', ORDER=-3) == '_-3.arf' and
              name(ORDER='+3') == '_+3.fits' and
              name('rmf', CCDORDER=2, TRUEORD=-3, ORDER=1) == '_ccdord_+2_true_-3.rmf')
