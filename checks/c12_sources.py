"""Sources: times, energies, polarization angles, positions and directions of new photons."""
from symx.worker import registry
from .c11_aperture import local
from .elements import Frame

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'numpy.random.rand/random/uniform return independent evenly distributed numbers and '
    'scipy.stats.expon.rvs(scale, size) returns scale times non-negative numbers; decided is how '
    'the result is made from these numbers.',
    'At most 4 photons per exposure and at most 3 calls to the generator of waiting times.',
]


def val(x, unit):
    return x.to_value(unit) if hasattr(x, 'to_value') else x


def const(env, mod, **kw):
    """A source with one photon per second."""
    import astropy.units as u
    return mod.Source(flux=1 / u.s, geomarea=None, **kw)


@harness(timeout=60)
def constant_flux(env):
    """any constant flux, area and exposure time with at most 4 photons, mixed units."""
    import astropy.units as u
    s = env.imp('marxs.source.basesources')
    f, a, t = env.real('flux', env.num(1) / 2, 2), env.real('area', env.num(1) / 2, 2), \
        env.real('time', env.num(1) / 100, 4)
    env.assume(f * a * t <= 4)
    kind = env.choice('units', ['cm', 'm', 'none'])
    if kind == 'cm':
        src = s.Source(flux=f / u.s / u.cm**2, geomarea=a * u.cm**2)
        ph = src(t * u.s)
    elif kind == 'm':
        src = s.Source(flux=f * 60 / u.minute / u.cm**2, geomarea=a * 100 * u.mm**2)
        ph = src(t * 1000 * u.ms)
    else:
        src = s.Source(flux=f * a / u.s, geomarea=None)
        ph = src(t * u.s)
    n = len(ph)
    rate = f * a
    for i in range(n):
        env.check_eq('time %d' % i, ph['time'].data[i] * rate, i)
        env.check_eq('probability %d' % i, ph['probability'].data[i], 1)
    env.check_le('not more photons', env.num(n - 1), rate * t)
    env.check_le('not fewer photons', rate * t, env.num(n))
    env.check_eq('EXPOSURE', ph.meta['EXPOSURE'][0], t)


class Expon:
    """Contract of scipy.stats.expon."""

    def __init__(self, env):
        self.env, self.z, self.calls = env, [], 0

    def rvs(self, loc=0, scale=1, size=1, random_state=None):
        env = self.env
        self.calls += 1
        if self.calls > 3:
            env.skip('more than 3 calls')
        if hasattr(scale, 'unit'):       # scipy drops units
            scale = scale.value
        n = int(size)
        if n == 0 and self.calls > 1:
            env.check('comes to an end', False)
            env.skip('endless loop')
        z = [env.real('wait%d' % i, 0, 5) for i in range(len(self.z), len(self.z) + n)]
        self.z += z
        return env.arr([loc + scale * x for x in z])


@harness(timeout=80, max_paths=800)
def poisson(env):
    """Poisson flux: any rate, area and exposure time with up to 2 expected photons."""
    import astropy.units as u
    s = env.imp('marxs.source.basesources')
    env.patch(s, 'expon', Expon(env))
    f, a = env.real('flux', env.num(1) / 2, 2), env.real('area', env.num(1) / 2, 2)
    t = env.real('time', env.num(1) / 100, 4)
    env.assume(f * a * t <= env.num(2))
    if env.choice('units', ['cm', 'mixed']) == 'cm':
        src = s.Source(flux=s.poisson_process(f / u.s / u.cm**2), geomarea=a * u.cm**2)
    else:
        src = s.Source(flux=s.poisson_process(f * 60 / u.minute / u.cm**2),
                       geomarea=a * 100 * u.mm**2)
    got = src(t * u.s)['time'].data
    rate = f * a
    z = s.expon.z
    tot, k = env.num(0), 0
    for x in z:
        tot = tot + x
        if tot < t * rate:
            if k < len(got):
                env.check_eq('sum of waiting times %d' % k, got[k] * rate, tot)
            k += 1
    env.check('number of photons', len(got) == k)
    env.check_le('up to the end of the exposure', t * rate, tot)


@harness(timeout=60)
def energy_and_angle(env):
    """constant energy (or wavelength) and polarization angle, or from functions, any values."""
    import astropy.units as u
    s = env.imp('marxs.source.basesources')
    m = env.imp('marxs')
    e = [env.real('e%d' % i, 1, 9) for i in range(3)]
    a = [env.real('a%d' % i, -4, 4) for i in range(3)]
    kind = env.choice('energy', ['keV', 'eV', 'wave', 'function'])
    pol = env.choice('pol', ['rad', 'deg', 'function', 'none'])
    seen = []
    en = {'keV': lambda: e[0] * u.keV, 'eV': lambda: 1000 * e[0] * u.eV,
          'wave': lambda: (1 / e[0]) * u.nm,
          'function': lambda: (lambda t: (seen.append(t), env.arr(e) * u.keV)[1])}[kind]()
    po = {'rad': lambda: a[0] * u.rad, 'deg': lambda: a[0] * u.deg, 'none': lambda: None,
          'function': lambda: (lambda t, en: (seen.append(en), env.arr(a) * u.rad)[1])}[pol]()
    ph = const(env, s, energy=en, polarization=po)(3 * u.s)
    env.check('three photons', len(ph) == 3)
    used = set()
    for i in range(3):
        got = ph['energy'].data[i]
        if kind == 'wave':
            env.check_near('energy from wavelength', got, e[0] * env.num(1.2398419843320026),
                           env.num(1) / 10 ** 7)
        else:
            env.check_near('energy', got, e[i if kind == 'function' else 0],
                           env.num(1) / 10 ** 9)
        p = ph['polangle'].data[i]
        if pol == 'rad':
            env.check_eq('angle', p, a[0])
        elif pol == 'deg':
            env.check_near('angle from degrees', p * 180, a[0] * env.PI, env.num(1) / 10 ** 9)
        elif pol == 'function':
            env.check_eq('angle', p, a[i])
        else:
            env.drawn('any angle is equally likely', [p], lambda v: [2 * env.PI * v], used)


@harness(timeout=60)
def refused(env):
    """functions that return the wrong number of values and things that are no spectrum."""
    import astropy.units as u
    s = env.imp('marxs.source.basesources')
    x = env.real('x', 1, 2)
    n = env.choice('n', [1, 2, 3])

    def call(**kw):
        return env.raises(s.SourceSpecificationError, lambda: const(env, s, **kw)(2 * u.s))
    env.check('energies', call(energy=lambda t: env.arr([x] * n) * u.keV) == (n != 2))
    env.check('angles', call(polarization=lambda t, e: env.arr([x] * n) * u.rad) == (n != 2))
    env.check('list of energies', call(energy=env.arr([x] * 2) * u.keV))
    env.check('list of angles', call(polarization=env.arr([x] * 2) * u.rad))
    env.check('list of fluxes', env.raises(
        s.SourceSpecificationError, lambda: s.Source(flux=env.arr([x] * 2) / u.s)(2 * u.s)))


def in_bin(env, name, edges, dens, got, used, sort=True):
    """got is drawn from the piecewise flat density; uses two random numbers."""
    p = [dens[i] * (edges[i] - edges[i - 1]) for i in range(1, len(edges))]
    tot = env.num(0)
    for v in p:
        tot = tot + v
    draws = env.draws('rand', 'random', 'uniform')
    free = [i for i in range(len(draws)) if i not in used]
    for i in free:
        for b in range(len(p)):
            lo, w = edges[b], edges[b + 1] - edges[b]
            if env.same(got, lo + w * draws[i]):
                used.add(i)
                env.check(name + ': even in the bin', True)
                return b, p, tot
    env.check(name + ': even in the bin', env.or_(False, *[
        env.eq(got, edges[b] + (edges[b + 1] - edges[b]) * draws[i])
        for i in free for b in range(len(p))]))
    return None, p, tot


def turn(env, name, b, u, p, tot, sort=True):
    """bin b is taken for random number u (bins in the order of their probability or as given)."""
    lo, hi = env.num(0), env.num(0)
    for j, v in enumerate(p):
        if sort:
            if v < p[b]:
                lo = lo + v
            if v <= p[b]:
                hi = hi + v
        else:
            lo = lo + v if j < b else lo
            hi = hi + v if j <= b else hi
    env.check_le(name + ': not before its turn', lo, u * tot)
    env.check_le(name + ': not after its turn', u * tot, hi)
    env.check_lt(name + ': possible at all', 0, p[b])


def _pdf(sort, rand):
    def f(env):
        r = env.imp('marxs.math.random')
        x = [env.real('x0', -3, 3)]
        w = [env.real('width%d' % i, 0, 2) for i in range(3)]
        for v in w:
            x.append(x[-1] + v)
        d = [env.real('ignored', 0, 2)] + [env.real('density%d' % i, 0, 2) for i in range(3)]
        pdf = r.RandomArbitraryPdf(env.arr(x), env.arr(d), randomize_in_bin=rand, sort=sort)
        tot = d[1] * w[0] + d[2] * w[1] + d[3] * w[2]
        env.assume(tot > 0)
        got = pdf(1)[0]
        draws = env.draws('uniform', 'rand', 'random')
        env.assume(draws[0] > 0)
        if rand:
            used = {0}
            b, p, tot = in_bin(env, 'value', x, d, got, used)
            if b is not None:
                turn(env, 'bin', b, draws[0], p, tot, sort)
        else:
            p = [d[i + 1] * w[i] for i in range(3)]
            k = [b for b in range(3) if env.same(got, x[b + 1])]
            env.check('upper edge of a bin', len(k) > 0)
            if k:
                turn(env, 'bin', k[0], draws[0], p, tot, sort)
    f.__name__ = 'pdf_%s_%s' % ('sorted' if sort else 'unsorted', 'even' if rand else 'edge')
    f.__doc__ = 'density with 3 bins of any width (or zero) and value (or zero), ' + f.__name__
    return f


harness(timeout=80, max_paths=800)(_pdf(True, True))
harness(timeout=80, max_paths=800)(_pdf(False, True))
harness(timeout=80, max_paths=800)(_pdf(False, False))


@harness(timeout=60)
def pdf_refused(env):
    """negative densities, decreasing bins, lists that do not match."""
    r = env.imp('marxs.math.random')
    x = [env.real('x%d' % i, -3, 3) for i in range(3)]
    d = [env.real('d%d' % i, -1, 3) for i in range(3)]
    n = env.choice('n', [2, 3])
    bad = env.raises(ValueError, lambda: r.RandomArbitraryPdf(env.arr(x), env.arr(d[:n])))
    good = env.and_(n == 3, x[0] <= x[1], x[1] <= x[2], d[0] >= 0, d[1] >= 0, d[2] >= 0)
    env.check('refused if and only if it is no density', env.not_(good) if bad else good)


@harness(timeout=80, max_paths=800)
def spectrum(env):
    """spectrum and polarization angles from tables (1 or 2 bins of any width and density)."""
    import astropy.units as u
    from astropy.table import QTable
    s = env.imp('marxs.source.basesources')
    n = env.choice('n', [1, 2])
    w = [env.real('w%d' % i, env.num(1) / 4, 2) for i in range(n)]
    x = [env.num(1), 1 + w[0]] + ([1 + w[0] + w[1]] if n == 2 else [])
    d = [env.num(5)] + [env.real('d%d' % i, 0, 2) for i in range(n)]
    env.assume(sum(d[1:]) > 0)
    what = env.choice('what', ['energy', 'angle'])
    t = QTable()
    if what == 'energy':
        t['energy'] = env.arr([v * 1000 for v in x]) * u.eV
        t['fluxdensity'] = env.arr([v / 1000 for v in d]) / u.s / u.cm**2 / u.eV
        src = const(env, s, energy=t, polarization=0 * u.rad)
    else:
        t['angle'] = env.arr(x) * u.rad
        t['probabilitydensity'] = env.arr(d) / u.rad
        src = const(env, s, polarization=t)
    ph = src(1 * u.s)
    got = ph['energy' if what == 'energy' else 'polangle'].data[0]
    draws = env.draws('uniform', 'rand', 'random')
    env.assume(draws[0] > 0)
    used = {0}
    b, p, tot = in_bin(env, 'value', x, d, got, used)
    if b is not None:
        turn(env, 'bin', b, draws[0], p, tot)


# ------------------------------------------------------------ sources in the lab
class Pol:
    """Stands in for the polarization vectors (decided in C20) and notes what it is given."""

    def __init__(self, env):
        self.env = env

    def __call__(self, dirs, angles):
        self.dirs, self.angles = dirs, angles
        return self.env.arr([[3, 4, i, 0] for i in range(len(angles))])

    def judge(self, ph):
        for i in range(len(ph)):
            self.env.check_vec('polarization for the direction %d' % i, self.dirs[i],
                               ph['dir'].data[i])
            self.env.check_eq('polarization for the angle %d' % i, self.angles[i],
                              ph['polangle'].data[i])
            self.env.check_vec('polarization is handed on %d' % i, ph['polarization'].data[i],
                               self.env.arr([3, 4, i, 0]))


@harness(timeout=60)
def far_source(env):
    """source at any place in front of an aperture of any size."""
    import astropy.units as u
    s = env.imp('marxs.source.labSource')
    zy, zz = env.real('zy', 1, 3), env.real('zz', 1, 3)
    fr = Frame(env, 5, zoom=(1, zy, zz))
    h = env.real('h', 5, 50)
    src_pos = fr.pos([h, 2, env.real('z', -5, 5)])[:3]
    src = s.FarLabPointSource(env.arr(src_pos), **fr.kwargs())
    env.patch(s, 'polarization_vectors', Pol(env))
    ph = src(2 * u.s)
    s.polarization_vectors.judge(ph)
    env.check('number of photons', len(ph) == 2)
    used = set()
    for i in range(2):
        p, d = ph['pos'].data[i], ph['dir'].data[i]
        x = local(env, fr, p)
        env.check_eq('on the aperture %d' % i, x[0], 0)
        env.drawn('y evenly %d' % i, [x[1]], lambda v: [(2 * v - 1) * zy], used)
        env.drawn('z evenly %d' % i, [x[2]], lambda v: [(2 * v - 1) * zz], used)
        ray = [p[k] - src_pos[k] for k in range(3)]
        c = env.cross(ray, d[:3])
        for k in range(3):
            env.check_eq('from the source %d.%d' % (i, k), c[k], 0)
        env.check_lt('away from the source %d' % i, 0, env.dot(ray, d[:3]))
        env.check_unit('unit direction %d' % i, d)


AXES = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1), '-x': (-1, 0, 0), '-z': (0, 0, -1),
        'oblique': (3, -4, 12)}


def _cone(name):
    def f(env):
        import astropy.units as u
        s = env.imp('marxs.source.labSource')
        h = env.angle('half_opening', 0, env.PI)
        pos = env.vec('p', 3)
        axis = AXES[name]
        kw = {'direction': env.arr(list(axis))}
        src = s.LabPointSourceCone(position=pos, half_opening=h, polarization=1 * u.rad, **kw)
        n = 2
        env.patch(s, 'polarization_vectors', Pol(env))
        ph = src(n * u.s)
        s.polarization_vectors.judge(ph)
        env.check('number of photons', len(ph) == n)
        l = env.num(env.dot(axis, axis))
        l = env.sqrt(l)
        axis = [env.num(v) / l for v in axis]
        used = set()
        cs, perp = [], []
        for i in range(n):
            env.check_vec('starts at the source %d' % i, ph['pos'].data[i],
                          env.arr([pos[0], pos[1], pos[2], 1]))
            d = ph['dir'].data[i]
            c = env.dot(d[:3], axis)
            env.drawn('cosine of the angle to the axis evenly in the cone %d' % i, [c],
                      lambda v: [1 - (1 - env.cos(h)) * v], used)
            env.check_unit('unit direction %d' % i, d)
            cs.append(c)
            perp.append([d[k] - c * axis[k] for k in range(3)])
        got = env.dot(perp[0], perp[1])
        free = [v for i, v in enumerate(env.draws('rand', 'random', 'uniform')) if i not in used]
        s0, s1 = env.sqrt(1 - cs[0] * cs[0]), env.sqrt(1 - cs[1] * cs[1])
        env.check('one more number per photon', len(free) == n)
        if len(free) == n:
            env.check_eq('azimuth between two photons', got,
                         s0 * s1 * env.cos(2 * env.PI * (free[0] - free[1])))
    f.__name__ = 'cone_' + name.replace('-', 'minus_')
    f.__doc__ = 'cone of any opening at any place, axis ' + name
    return f


@harness(timeout=60)
def cone_default(env):
    """the axis of the cone is x unless it is set, and it is normalized."""
    import astropy.units as u
    s = env.imp('marxs.source.labSource')
    env.patch(s, 'polarization_vectors', Pol(env))
    h = env.num(3) / 4
    f = env.real('f', env.num(1) / 9, 9)
    k = env.choice('k', [0, 1])
    if k:
        src = s.LabPointSourceCone(half_opening=h, direction=env.arr([0, 3 * f, 4 * f]))
    else:
        src = s.LabPointSourceCone(half_opening=h)
    ph = src(1 * u.s)
    d = ph['dir'].data[0]
    c = (d[1] * 3 + d[2] * 4) / 5 if k else d[0]
    tol = env.num(1) / 10 ** 9
    v = env.draws('rand', 'random', 'uniform')
    env.check('angle to the axis', env.or_(*[
        env.and_(c - w < tol, w - c < tol) for w in [1 - (1 - env.cos(h)) * x for x in v]]))


for _k in AXES:
    harness(timeout=60)(_cone(_k))
