"""Detector pixels and detected energies."""
from symx.worker import registry
from .elements import Frame, snapshot
from .c05_missed import miss_row
from .c06_unit import ndir

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Outline: |size / pixel size| below 5 pixels (the number of pixels is an integer that is '
    'enumerated by the solver). scipy.stats.norm is replaced by its contract (rvs = loc + scale * '
    'standard normal number; cdf an arbitrary function of the normalized value).',
]


def rows_to_photons(env, fr, rows):
    pol = [fr.dir(env.cross(env.arr(list(d)), env.arr([1, 2, 3]))) for _, d in rows]
    n = len(rows)
    return env.photons(n, env.arr([fr.pos(s) for s, _ in rows]),
                       env.arr([fr.dir(d) for _, d in rows]), env.arr([1] * n), env.arr(pol),
                       env.arr([1] * n))


def is_round(env, name, n, x):
    """n is x rounded to the next integer."""
    env.check_le(name + ': not too large', n, x + env.num(1) / 2)
    env.check_le(name + ': not too small', x - env.num(1) / 2, n)
    env.check(name + ': integer', env.eq(env.num(int(n)), env.num(n)))


@harness(timeout=80, max_paths=2500)
def flat_pixels(env):
    """any pixel size, chip up to 4 pixels wide, two photons anywhere, one misses."""
    o = env.imp('marxs.optics.detector')
    zy, zz = env.real('zy', 1, 2), env.num(2)
    pix = env.real('pix', 1, 3)
    fr = Frame(env, 5, zoom=(1, zy, zz))
    el = o.FlatDetector(pixsize=pix, ignore_pixel_warning=env.choice('quiet', [False, True]),
                        **fr.kwargs())
    is_round(env, 'pixels in x', el.npix[0], 2 * zy / pix)
    is_round(env, 'pixels in y', el.npix[1], 2 * zz / pix)
    d = ndir(env, 0)
    y, z = env.real('y', -1, 1), env.real('z', -2, 2)
    rows = [([-7 * d[0], y - 7 * d[1], z - 7 * d[2]], d), miss_row(0)]
    ph = rows_to_photons(env, fr, rows)
    before = snapshot(ph)
    out = el(ph)
    for a, c, v in (('x', 0, y), ('y', 1, z)):
        env.check_eq('det_' + a, out['det_' + a].data[0], v)
        env.check_eq('detpix_' + a, out['detpix_' + a].data[0] * pix,
                     v + (el.npix[c] - 1) * pix / 2)
        env.check('no pixel for the miss ' + a, env.isnan(out['detpix_' + a].data[1]))
    env.check_eq('probability', out['probability'].data[0], 1)
    env.check_vec('direction', out['dir'].data[0], before['dir'][0])


@harness(timeout=60)
def flat_corner(env):
    """chip with a whole number of pixels: the corner of the chip is half a pixel outside of the
    centre of pixel (0, 0), whatever the orientation and side from which the photon arrives."""
    o = env.imp('marxs.optics.detector')
    nx, ny = env.choice('nx', [1, 2, 5]), env.choice('ny', [1, 4, 7])
    pix = env.real('pix', env.num(1) / 100, 3)
    rot = env.choice('rot', [5, 6])
    fr = Frame(env, rot, zoom=(1, nx * pix / 2, ny * pix / 2))
    el = o.FlatDetector(pixsize=pix, **fr.kwargs())
    env.check_eq('number of pixels x', env.num(el.npix[0]), nx)
    env.check_eq('number of pixels y', env.num(el.npix[1]), ny)
    d = ndir(env, 0) if env.choice('side', [0, 1]) else -ndir(env, 1)
    # position in pixels from the corner
    a, b = env.real('a', 0, 1), env.real('b', 0, 1)
    y, z = (a - env.num(1) / 2) * nx * pix, (b - env.num(1) / 2) * ny * pix
    rows = [([-7 * d[0], y - 7 * d[1], z - 7 * d[2]], d)]
    out = el(rows_to_photons(env, fr, rows))
    env.check_eq('pixel x', out['detpix_x'].data[0], a * nx - env.num(1) / 2)
    env.check_eq('pixel y', out['detpix_y'].data[0], b * ny - env.num(1) / 2)


@harness(timeout=60)
def flat_warning(env):
    """a warning is given if the chip is not a whole number of pixels (tolerance 1 %)."""
    import warnings
    o = env.imp('marxs.optics.detector')
    pix = env.real('pix', env.num(1) / 2, 5)
    z = env.real('z', 1, 3)
    seen = []

    class W:
        def warn(self, *a, **k):
            seen.append(a)
    env.patch(o, 'warnings', W())
    quiet = env.choice('quiet', [False, True])
    el = o.FlatDetector(pixsize=pix, ignore_pixel_warning=quiet, zoom=env.arr([1, z, pix]))
    x = 2 * z / pix
    r = x - el.npix[0]
    off = r if r > 0 else -r
    if seen:
        env.check('warned with a reason', env.and_(not quiet, off >= env.num(1) / 101))
    elif not quiet:
        env.check('no reason to warn', off <= env.num(1) / 99)


def _tube(side):
    def f(env):
        o = env.imp('marxs.optics.detector')
        pix = env.real('pix', env.num(1) / 100, 5)
        fr = Frame(env, 5, zoom=(5, 5, 3))
        el = o.CircularDetector(pixsize=pix, **fr.kwargs())
        cen = env.choice('central pixel', [(0, 0), (7, -3)])
        if cen != (0, 0):
            el.centerpix = list(cen)
        # place on the tube (inside of the quadrants), direction of the photon
        c, s = env.choice('place', [(3, 4), (-4, 3), (-3, -4), (4, -3), (5, 0)])
        h = env.real('h', -env.num(29) / 10, env.num(29) / 10)
        p = [env.num(c), env.num(s), h]
        a = env.real('slope', -1, 1)
        d = env.arr([env.num(c) / 5, env.num(s) / 5, 0])
        # outwards (from inside) or inwards (from outside)
        k = 1 if side == 'inside' else -1
        start = [p[0] - 3 * k * d[0], p[1] - 3 * k * d[1], h]
        rows = [(start, [k * x for x in d]), ([20, 20, 20], [0, 0, 1])]
        ph = rows_to_photons(env, fr, rows)
        out = el(ph)
        env.check_vec('position', out['pos'].data[0], fr.pos(p))
        phi = out['det_phi'].data[0]
        env.check_eq('angle (cos)', 5 * env.cos(phi), p[0])
        env.check_eq('angle (sin)', 5 * env.sin(phi), p[1])
        env.check_eq('height', out['det_y'].data[0], h)
        env.check_eq('pixels along the circle', (out['detpix_x'].data[0] - cen[0]) * pix,
                     phi * 5)
        env.check_eq('pixels along the axis', (out['detpix_y'].data[0] - cen[1]) * pix, h)
        env.check('none for the miss', env.isnan(out['detpix_x'].data[1]))
    f.__name__ = 'tube_' + side
    f.__doc__ = ('tube of radius 5 mm, any pixel size, any height, five places on the tube, '
                 'photon from ' + side)
    return f


harness(timeout=60)(_tube('inside'))
harness(timeout=60)(_tube('outside'))


# ------------------------------------------------------------ energy resolution
class Norm:
    """Contract of scipy.stats.norm."""

    def __init__(self, env):
        self.env = env
        self.z, self.calls = [], []
        self.cumul = env.func('cdf', 0, 1)

    def __call__(self):
        return self

    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        env = self.env
        loc, scale = getattr(loc, 'value', loc), getattr(scale, 'value', scale)
        loc, scale = list(loc), list(scale)
        z = [env.real('z%d' % i, -6, 6) for i in range(len(self.z), len(self.z) + len(loc))]
        self.z += z
        self.calls += list(zip(loc, scale))
        return env.arr([l + s * x for l, s, x in zip(loc, scale, z)])

    def cdf(self, x, loc=0, scale=1):
        x = getattr(x, 'value', x)
        return self.env.arr([self.cumul(v) for v in x])

    def interval(self, confidence, loc=0, scale=1):
        return (-self.half, self.half)

    ppf = None


def ccd(env, key):
    import astropy.units as u
    from astropy.table import QTable
    import numpy
    o = env.imp('marxs.optics.detector')
    env.patch(o, 'norm', Norm(env))
    t = QTable()
    t['energy'] = numpy.array([1., 2., 4.]) * u.keV
    t[key] = numpy.array([0.25, 0.5, 0.75]) * u.keV
    return o, t, u


def sigma(env, e, key, o):
    """width at energy e: linear between the tabulated energies, constant outside."""
    x, y = [1, 2, 4], [env.num(1) / 4, env.num(1) / 2, env.num(3) / 4]
    if e <= 1:
        r = y[0]
    elif e >= 4:
        r = y[2]
    elif e <= 2:
        r = y[0] + (e - 1) * (y[1] - y[0])
    else:
        r = y[1] + (e - 2) * (y[2] - y[1]) / 2
    return r


FWHM = 2.3548200450309493


@harness(timeout=60, max_paths=2500)
def ccd_energy(env):
    """two photons of any energy hit the chip, one does not; table of sigma or of FWHM."""
    key = env.choice('key', ['sigma', 'FWHM'])
    o, t, u = ccd(env, key)
    norm = o.norm
    fr = Frame(env, 5, zoom=(1, 2, 3))
    el = o.CCDRedistNormal(tab_width=t, **fr.kwargs())
    d = ndir(env, 0)
    miss = env.choice('missing', [None, 0, 1, 2])
    rows = [miss_row(0) if i == miss else ([-7 * d[0], 1 - 7 * d[1], -7 * d[2]], d)
            for i in range(3)]
    ph = rows_to_photons(env, fr, rows)
    en = [env.real('e%d' % i, env.num(1) / 2, 5) for i in range(3)]
    ph['energy'] = env.arr(en)
    ph['energy'].unit = u.keV
    before = snapshot(ph)
    out = el(ph)
    k = 0
    for i in range(3):
        env.check_eq('true energy %d' % i, out['energy'].data[i], en[i])
        e = out['energy_detected'].data[i]
        e = getattr(e, 'value', e)
        if i == miss:
            env.check('no energy for the miss', env.isnan(e))
            continue
        s = sigma(env, en[i], key, o)
        got = e - en[i]
        tol = env.num(1) / 10 ** 9
        if key == 'sigma':
            env.check_near('energy %d' % i, got, s * norm.z[k], tol)
        else:
            env.check_near('energy %d' % i, got * env.num(FWHM), s * norm.z[k], tol)
        k += 1
    env.check('one number per hit', len(norm.z) == (3 if miss is None else 2))


@harness(timeout=60)
def ccd_cdf(env):
    """probability to be detected below an energy, and central interval."""
    o, t, u = ccd(env, 'sigma')
    norm = o.norm
    el = o.CCDRedistNormal(tab_width=t)
    e = [env.real('e%d' % i, env.num(1) / 2, 5) for i in range(2)]
    x = [env.real('x%d' % i, env.num(1) / 2, 5) for i in range(2)]
    seen = []
    cum = norm.cumul
    norm.cumul = lambda v: (seen.append(v), cum(v))[1]
    p = el.cdf(env.arr(x) * u.keV, env.arr(e) * u.keV)
    for i in range(2):
        s = sigma(env, e[i], 'sigma', o)
        env.check_eq('normalized distance', seen[i] * s, x[i] - e[i])
        env.check_eq('probability', getattr(p[i], 'value', p[i]), cum(seen[i]))
    norm.half = env.num(3) / 2
    lo, hi = el.interval(.5, env.arr(e) * u.keV)
    for i in range(2):
        s = sigma(env, e[i], 'sigma', o)
        env.check_eq('lower end', lo[i].to_value(u.keV), e[i] - s * norm.half)
        env.check_eq('upper end', hi[i].to_value(u.keV), e[i] + s * norm.half)
