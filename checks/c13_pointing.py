"""Sky positions of photons and their direction and polarization in the telescope."""
from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'astropy.coordinates is replaced by the textbook formulas for ICRS positions and offset '
    'frames (rotation matrices); every witness is replayed with the real astropy.',
    'Photons exactly at a celestial pole have no polarization angle (documented) and are outside.',
    'Reference transforms are one of the listed rational rotations.',
]


def sky(env, *mods):
    """Replace astropy.coordinates (symbolic runs only)."""
    if env.symbolic:
        from symx import sky as s
        for m in mods:
            env.patch(m, 'SkyCoord', s.Sky)
            env.patch(m, 'SkyOffsetFrame', s.Offset)
        return s.Sky
    from astropy.coordinates import SkyCoord
    return SkyCoord


def angles(env, name, pole=False):
    lon = env.angle(name + '_lon', 0, 2 * env.PI)
    lat = env.angle(name + '_lat', -env.PI / 2, env.PI / 2)
    env.assume(env.cos(lat) > 0)
    return lon, lat


def basis(env, lon, lat):
    """Unit vectors to a place in the sky, and to the north and east in this place."""
    c1, s1, c2, s2 = env.cos(lon), env.sin(lon), env.cos(lat), env.sin(lat)
    return (env.arr([c2 * c1, c2 * s1, s2]), env.arr([-s2 * c1, -s2 * s1, c2]),
            env.arr([-s1, c1, 0 * c1]))


def deg(env, x):
    return x * 180 / env.PI


def axes(env, point, roll):
    """x, y, z of the telescope on the sky; z is towards position angle roll."""
    x, n, e = basis(env, *point)
    c, s = env.cos(roll), env.sin(roll)
    return x, c * e - s * n, c * n + s * e


def in_telescope(env, ax, ref, v):
    r = env.arr([env.dot(a, v) for a in ax])
    return env.matmul(ref, r)


def photons(env, stars, pa, times=None):
    from astropy.table import Table
    import astropy.units as u
    t = Table()
    n = len(stars)
    t['time'] = env.arr([i + 1 for i in range(n)])
    t['ra'] = env.arr([deg(env, s[0]) for s in stars])
    t['dec'] = env.arr([deg(env, s[1]) for s in stars])
    t['polangle'] = env.arr(pa)
    t['energy'] = env.arr([1] * n)
    t['probability'] = env.arr([1] * n)
    t['ra'].unit = t['dec'].unit = u.deg
    t['polangle'].unit = u.rad
    return t


def reference(env, k):
    if k is None:
        return env.arr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), {}
    R = env.rot(k)
    M = [[R[i][j] for j in range(3)] + [0] for i in range(3)] + [[0, 0, 0, 1]]
    return env.arr(R), {'reference_transform': env.arr(M)}


def _fixed(name, ref, free):
    def f(env):
        import astropy.units as u
        p = env.imp('marxs.source.pointing')
        S = sky(env, p)
        lon, lat = angles(env, 'point') if 'point' in free else (env.num(1), env.num(1) / 2)
        roll = env.angle('roll', -env.PI, env.PI) if 'roll' in free else env.num(0)
        star = angles(env, 'star')
        pa = env.angle('pa', 0, 2 * env.PI) if 'pa' in free else env.num(0)
        R, kw = reference(env, ref)
        if 'roll' in free:
            kw['roll'] = roll * u.rad
        coords = S(lon * u.rad, lat * u.rad)
        point = p.FixedPointing(coords=coords, **kw)
        other = (env.num(2), env.num(-1))
        ph = photons(env, [star, other], [pa, env.num(1)])
        out = point(ph)
        ax = axes(env, (lon, lat), roll)
        for i, (s, a) in enumerate(((star, pa), (other, env.num(1)))):
            if i == 1 and 'second' not in free:
                continue
            out_, n, e = basis(env, *s)
            d = out['dir'].data[i]
            env.check_vec('direction %d' % i, d[:3], -in_telescope(env, ax, R, out_))
            env.check_eq('direction is a direction %d' % i, d[3], 0)
            pol = env.cos(a) * n + env.sin(a) * e
            q = out['polarization'].data[i]
            env.check_vec('polarization angle is north through east %d' % i, q[:3],
                          in_telescope(env, ax, R, pol))
            env.check_eq('polarization is a direction %d' % i, q[3], 0)
        for k, v in (('RA', lon), ('DEC', lat), ('ROLL', roll)):
            for t in ('PNT', 'NOM'):
                env.check_near('header %s_%s' % (k, t), out.meta['%s_%s' % (k, t)][0] * env.PI,
                               v * 180, env.num(1) / 10 ** 6)
    f.__name__ = 'fixed_' + name
    f.__doc__ = 'photon anywhere on the sky; free: %s; reference transform %s' % (free, ref)
    return f


harness(timeout=60)(_fixed('all', None, ('point', 'roll', 'pa')))
harness(timeout=60)(_fixed('reference', 5, ('roll', 'pa')))
harness(timeout=60)(_fixed('default', None, ('point', 'pa', 'second')))


@harness(timeout=60)
def on_axis(env):
    """source at the pointing position, any roll: parallel to the optical axis."""
    import astropy.units as u
    p = env.imp('marxs.source.pointing')
    S = sky(env, p)
    lon, lat = angles(env, 'point')
    roll = env.angle('roll', -env.PI, env.PI)
    ref = env.choice('ref', [None, 5])
    R, kw = reference(env, ref)
    point = p.FixedPointing(coords=S(lon * u.rad, lat * u.rad), roll=roll * u.rad, **kw)
    out = point(photons(env, [(lon, lat)], [env.num(0)]))
    env.check_vec('along the optical axis', out['dir'].data[0][:3], -R[:, 0])
    # north is at the roll angle from z, towards y
    want = env.cos(roll) * R[:, 2] - env.sin(roll) * R[:, 1]
    env.check_vec('north', out['polarization'].data[0][:3], want)


def rotate(env, v, axis, c, s):
    k = env.cross(axis, v)
    d = env.dot(axis, v)
    return env.arr([v[i] * c + k[i] * s + axis[i] * d * (1 - c) for i in range(3)])


def _jitter(ref, n):
    def f(env):
        import astropy.units as u
        p = env.imp('marxs.source.pointing')
        S = sky(env, p)
        R, kw = reference(env, ref)
        sig = env.choice('sig', [env.num(0), env.num(1) / 8])
        pa = [env.angle('pa%d' % i, 0, 2 * env.PI) for i in range(n)]
        star = [(env.num(0), env.angle('d%d' % i, -1, 1)) for i in range(n)]
        for s in star:
            env.assume(env.cos(s[1]) > 0)
        coords = S(env.num(0) * u.rad, env.num(0) * u.rad)
        sgn = env.choice('sign', [1, -1])
        out = p.JitterPointing(coords=coords, jitter=sgn * sig * u.rad, **kw)(
            photons(env, star, pa))
        ax = axes(env, (env.num(0), env.num(0)), env.num(0))
        un = env.draws('rand', 'random', 'uniform')
        z = env.draws('normal', 'randn', 'standard_normal')
        for i in range(n):
            o, nn, e = basis(env, *star[i])
            d = -in_telescope(env, ax, R, o)
            q = in_telescope(env, ax, R, env.cos(pa[i]) * nn + env.sin(pa[i]) * e)
            if sig == 0:
                env.check_vec('no jitter %d' % i, out['dir'].data[i][:3], d)
                env.check_vec('no jitter (polarization) %d' % i,
                              out['polarization'].data[i][:3], q)
                continue
            t = 2 * env.PI * un[i]
            ang = sig * z[i]
            axis = env.matmul(R, env.arr([0, env.sin(t), env.cos(t)]))
            c, s = env.cos(ang), env.sin(ang)
            got = out['dir'].data[i]
            # either sense of the rotation: the normal distribution is symmetric
            if not env.same(got[0], rotate(env, d, axis, c, -s)[0]):
                s = -s
            env.check_vec('turned by the drawn angle %d' % i, got[:3],
                          rotate(env, d, axis, c, -s))
            env.check_vec('polarization turns with it %d' % i, out['polarization'].data[i][:3],
                          rotate(env, q, axis, c, -s))
            env.check_eq('direction is a direction %d' % i, got[3], 0)
    f.__name__ = 'jitter_%s_%d' % (ref or 'x', n)
    f.__doc__ = ('%d photon(s) on a line through the pointing direction, any jitter angle and axis, '
                 'reference transform %s' % (n, ref))
    return f


harness(timeout=60)(_jitter(None, 2))
harness(timeout=60)(_jitter(5, 1))


# ------------------------------------------------------------ places on the sky
def vector(env, ph, i):
    if env.symbolic:
        from symx import sky as s
        v = s.vector(ph['ra'].data[i] * env.PI / 180, ph['dec'].data[i] * env.PI / 180)
        if v is not None:
            return v
    return basis(env, ph['ra'].data[i] * env.PI / 180, ph['dec'].data[i] * env.PI / 180)[0]


def src(env, cls, lon, lat, **kw):
    import astropy.units as u
    s = env.imp('marxs.source.basesources')
    S = sky(env, s)
    return getattr(s, cls)(coords=S(lon * u.rad, lat * u.rad), flux=1 / u.s, geomarea=None,
                           polarization=0 * u.rad, **kw)


@harness(timeout=60)
def point_source(env):
    """any position: all photons come from there."""
    import astropy.units as u
    lon, lat = angles(env, 'src')
    ph = src(env, 'PointSource', lon, lat)(3 * u.s)
    env.check('number', len(ph) == 3)
    for i in range(3):
        env.check_eq('ra', ph['ra'].data[i], deg(env, lon))
        env.check_eq('dec', ph['dec'].data[i], deg(env, lat))
    env.check('units', (ph['ra'].unit, ph['dec'].unit) == (u.deg, u.deg))
    env.check('system', ph.meta['COORDSYS'][0] == 'ICRS')


def _ring(cls):
    def f(env):
        import astropy.units as u
        lon, lat = angles(env, 'src')
        a1 = env.angle('outer', 0, 1)
        a0 = env.angle('inner', 0, 1)
        hole = env.choice('hole', [True, False])
        env.assume(a0 < a1)
        kw = {'a_outer': a1 * u.rad}
        if hole:
            kw['a_inner'] = a0 * u.rad
        else:
            a0 = env.num(0)
        n = 2
        ph = src(env, cls, lon, lat, **kw)(n * u.s)
        used = set()
        x, north, east = basis(env, lon, lat)
        for i in range(n):
            v = vector(env, ph, i)
            c = env.dot(v, x)
            if cls == 'DiskSource':
                def sep(w):
                    return env.cos(env.sqrt(a0 * a0 + w * (a1 * a1 - a0 * a0)))
            else:
                def sep(w):
                    return env.cos(a0) + w * (env.cos(a1) - env.cos(a0))
            w = env.drawn('evenly over the area %d' % i, [c], lambda w: [sep(w)], used)
            s = env.sqrt(1 - c * c)
            env.drawn('all position angles are equally likely %d' % i,
                      [env.dot(v, north), env.dot(v, east)],
                      lambda w: [s * env.cos(2 * env.PI * w), s * env.sin(2 * env.PI * w)], used)
    f.__name__ = cls
    f.__doc__ = 'any position, inner and outer radius (up to 1 rad), two photons'
    return f


harness(timeout=60)(_ring('SphericalDiskSource'))
harness(timeout=60)(_ring('DiskSource'))


@harness(timeout=60)
def gauss(env):
    """any position, normal numbers times sigma along and across the meridian."""
    import astropy.units as u
    lon, lat = angles(env, 'src')
    k = env.choice('unit', [1, 60])
    sig = env.real('sigma', env.num(1) / 100, 2)
    ph = src(env, 'GaussSource', lon, lat, sigma=sig * k * (u.deg if k == 1 else u.arcmin))(2 * u.s)
    z = env.draws('normal', 'randn', 'standard_normal')
    env.check('two numbers per photon', len(z) == 4)
    x, north, east = basis(env, lon, lat)
    rad = env.PI / 180
    used = set()
    for i in range(2):
        v = vector(env, ph, i)
        n, e = env.dot(v, north), env.dot(v, east)
        for a in range(len(z)):
            if a not in used and env.same(n, env.sin(sig * z[a] * rad)):
                break
        used.add(a)
        env.check_eq('north %d' % i, n, env.sin(sig * z[a] * rad))
        for b in range(len(z)):
            w = env.cos(sig * z[a] * rad) * env.sin(sig * z[b] * rad)
            if b not in used and env.same(e, w):
                break
        used.add(b)
        env.check_eq('east %d' % i, e, env.cos(sig * z[a] * rad) * env.sin(sig * z[b] * rad))


@harness(timeout=60)
def letter_f(env):
    """photons lie on one of the three lines of the letter."""
    import astropy.units as u
    lon, lat = env.real('lon', 1, 200), env.real('lat', -60, 60)
    size = env.real('size', env.num(1) / 10, 3)
    rad = env.PI / 180
    ph = src(env, 'SymbolFSource', lon * rad, lat * rad, size=size * u.deg)(2 * u.s)
    used = set()
    for i in range(2):
        a, d = ph['ra'].data[i] - lon, ph['dec'].data[i] - lat
        if env.same(d, 0):
            env.drawn('long line %d' % i, [a], lambda w: [w * size], used)
        elif env.same(a, size):
            env.drawn('upper line %d' % i, [d], lambda w: [w * size / 2], used)
        else:
            env.check_near('place of the short line %d' % i, a, size * 4 / 5,
                           env.num(1) / 10 ** 9)
            env.check_le('short line %d' % i, 0, d)
            env.check_le('short line %d' % i, d, size * 3 / 10)
