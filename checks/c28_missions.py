"""Instruments of the missions are put together as their design tables say."""
from symx.worker import registry
from .elements import Frame, snapshot

HARNESSES, harness = registry()
NEEDS = ['marxs.missions.arcus.boom', 'marxs.missions.arcus.spo', 'marxs.missions.arcus.arcus',
         'marxs.missions.arcus.ralfgrating', 'marxs.missions.athena.spo',
         'marxs.missions.lynx.lynx', 'marxs.missions.lynx.mirror', 'marxs.missions.AXIS.AXIS',
         'marxs.missions.arcus.defaults', 'marxs.missions.chandra.hrma_py']
ASSUMPTIONS = [
    'The calibration files of Arcus are not distributed with the code: tables and numbers from '
    'them are symbolic, with 2 or 3 rows; interpolating functions are uninterpreted functions.',
    'Gratings, lenses and scatter themselves are decided in other properties.',
    'Booms have one or two bays with any length and width.',
]


def ends(e):
    g = e.geometry
    return ([g['center'][i] - g['v_x'][i] for i in range(3)],
            [g['center'][i] + g['v_x'][i] for i in range(3)])


def match(env, name, got, want):
    """every entry of want (list of possible sequences) is one of got and vice versa"""
    env.check(name + ': number', len(got) == len(want))
    left = list(got)
    for k, w in enumerate(want):
        cand = [(g, v) for g in left for v in w
                if all(env.close(a, b) for a, b in zip(g[:6], v))] or [(left[0], w[0])]
        g, v = cand[0]
        left = [x for x in left if x is not g]
        for j, (a, b) in enumerate(zip(g, v)):
            env.check_near('%s %d: %d' % (name, k, j), a, b, 1e-6)


def _boom(n):
    def f(env):
        b = env.imp('marxs.missions.arcus.boom')
        lon, bat = env.real('longeron', 1, 100), env.real('batten', 1, 100)
        start = env.choice('start', [0, 1])
        cls = b.ThreeSidedBoom if n == 3 else b.FourSidedBoom
        r = [env.positive('r%d' % i, hi=env.num(1) / 2) for i in range(3)]
        fr = Frame(env, env.choice('rot', [0, 5]), c=(1, 2, 3), zoom=(1, 1, 1))
        boom = cls(orientation=fr.R, position=fr.c,
                   boom_dimensions={'l_longeron': lon, 'l_batten': bat, 'start_bay': start,
                                    'n_bays': 2, 'd_longeron': 2 * r[0], 'd_batten': 2 * r[1],
                                    'd_diag': 2 * r[2]})
        half = bat / 2
        if n == 3:
            s = env.num(3**0.5)
            c = [(bat / s, env.num(0)), (-bat / s / 2, half), (-bat / s / 2, -half)]
        else:
            c = [(half, half), (-half, half), (-half, -half), (half, -half)]
        want = []
        for h in range(start, 2):
            for i in range(n):
                p, q = c[i], c[(i + 1) % n]
                x0, x1 = h * lon, (h + 1) * lon
                for a, z, k in [((x0,) + p, (x1,) + p, 0), ((x0,) + p, (x0,) + q, 1),
                                ((x0,) + p, (x1,) + q, 2), ((x0,) + q, (x1,) + p, 2)]:
                    a, z = list(fr.pos(a))[:3], list(fr.pos(z))[:3]
                    want.append([a + z + [r[k]**2], z + a + [r[k]**2]])
        got = []
        for e in boom.elements:
            a, z = ends(e)
            v = e.geometry['v_y']
            w = e.geometry['v_z']
            env.check_near('round', env.dot(v[:3], v[:3]), env.dot(w[:3], w[:3]), 1e-6)
            got.append(a + z + [env.dot(v[:3], v[:3])])
        match(env, 'rods', got, want)
    f.__name__ = 'boom%d' % n
    f.__doc__ = 'rods of a boom with %d sides run from corner to corner.' % n
    return f


for _n in (3, 4):
    harness(timeout=200)(_boom(_n))


@harness(timeout=100)
def rod(env):
    """a ray that meets the wall of a rod is absorbed, others are not touched."""
    b = env.imp('marxs.missions.arcus.boom')
    fr = Frame(env, env.choice('rot', [0, 5, 7]), zoom=(7, 2, 2))
    a, t = env.real('a', -9, 9), env.real('t', -4, 4)
    for v in (a, t):
        env.assume(env.not_(env.or_(*[env.eq(v, k) for k in (-7, 7, -2, 2)])))
    axis = env.choice('seen along', [1, 2])
    pos, dr = ([a, 5, t], [0, -1, 0]) if axis == 1 else ([a, t, 5], [0, 0, -1])
    p = env.photons(2, pos=[fr.pos(pos), fr.pos([20, 20, 20])],
                    dir=[fr.dir(dr), fr.dir([1, 0, 0])],
                    prob=[env.real('p0', 0, 1), env.real('p1', 0, 1)])
    before = snapshot(p)
    p = b.Rod(**fr.kwargs())(p)
    hit = env.and_(-7 <= a, a <= 7, -2 <= t, t <= 2)
    flag = p['hitrod'] if 'hitrod' in p.colnames else [False, False]
    env.check('hit is found', env.implies(hit, env.and_(bool(flag[0]), env.eq(p['probability'][0], 0))))
    env.check('miss is left alone', env.or_(hit, env.and_(
        not bool(flag[0]), env.eq(p['probability'][0], before['probability'][0]))))
    env.check('the other ray', not bool(flag[1]))
    env.check_eq('probability of the other ray', p['probability'][1], before['probability'][1])
    for i in range(2):
        env.check_vec('direction %d' % i, p['dir'][i], before['dir'][i])



class Rows(list):
    """table with columns of any kind of numbers"""

    def __init__(self, env, cols, units=None):
        self.env, self.cols, self.units = env, cols, units or {}
        self.colnames = list(cols)
        n = len(next(iter(cols.values())))
        super().__init__({k: v[i] for k, v in cols.items()} for i in range(n))

    def __getitem__(self, k):
        import astropy.units as u
        if isinstance(k, str):
            a = self.env.arr(list(self.cols[k]))
            return u.Quantity(a, self.units[k]) if k in self.units else a
        return super().__getitem__(k)


def spotable(env, angles, prefix='', **fixed):
    n = len(angles)

    def col(name, lo, hi):
        return fixed.get(name) or [env.real('%s%s%d' % (prefix, name, i), lo, hi)
                                   for i in range(n)]
    inner = col('inner', 100, 200)
    width = col('width', 1, 20)
    c = {'inner_radius': inner, 'outer_radius': [a + b for a, b in zip(inner, width)],
         'r_mid': [a + b / 2 for a, b in zip(inner, width)], 'clocking_angle': list(angles),
         'focal_length': col('f', 1000, 2000), 'azwidth': col('az', 5, 10),
         'primary_length': col('len', 1, 3), 'plate_height': col('h', env.num(1) / 2, 1)}
    return Rows(env, c, {'clocking_angle': 'rad'})


def no_polarization(env, m):
    env.patch(m, 'parallel_transport', lambda d0, d1, p: p)


PERM = [[0, 1, 0], [0, 0, 1], [1, 0, 0]]      # x of the element is the z axis of the mission


@harness(timeout=150)
def spo_place(env):
    """petal of silicon pore optics: each at its radius and angle, with the size of its plates,
    its own z direction pointing away from the optical axis."""
    s = env.imp('marxs.missions.athena.spo')
    ang = [env.angle('a%d' % i, -3, 3) for i in range(2)]
    t = spotable(env, ang)
    out = s.spogeom2pos4d(t)
    env.check('number', len(out) == 2)
    for i in range(2):
        c, n = env.cos(ang[i]), env.sin(ang[i])
        r = t[i]['r_mid']
        a, b, h = t[i]['primary_length'], t[i]['azwidth'] / 2, 18 * t[i]['plate_height']
        want = [[a, 0, 0, 0], [0, b * c, h * n, r * n], [0, -b * n, h * c, r * c], [0, 0, 0, 1]]
        for k in range(4):
            env.check_vec('matrix %d row %d' % (i, k), out[i][k], want[k])


@harness(timeout=150)
def spo_focus(env):
    """each pore optic focuses a beam along the axis onto the axis at its own focal length, with
    the squared reflectivity at a quarter of the deflection; photons get its number."""
    s = env.imp('marxs.missions.athena.spo')
    lens = env.imp('marxs.optics.mirror')
    no_polarization(env, lens)
    k = env.choice('member', [0, 1])
    a = env.angle('a', -3, 3) if env.choice('free', ['angle', 'size']) == 'angle' else None
    one = env.num(1)
    if a is None:
        t = spotable(env, [env.num(0), env.PI / 2], az=[8 * one] * 2, len=[one] * 2,
                     h=[one, one])
        ang = [env.num(0), env.PI / 2]
    else:
        ang = [env.num(0), env.num(0)]
        ang[k] = a
        # the other one is far away
        t = spotable(env, ang, inner=[120 * one if i == k else 600 * one for i in range(2)],
                     width=[6 * one] * 2, f=[1500 * one, 1600 * one], az=[8 * one] * 2,
                     len=[one] * 2, h=[one, one])
    pos4d = [env.arr(p) for p in s.spogeom2pos4d(t)]
    perm = env.arr([r + [0] for r in PERM] + [[0, 0, 0, 1]])
    refl = env.func('refl', 0, 1)
    n0 = env.choice('offset', [0, 1000])
    m = s.SPOChannelMirror(position=env.arr([3, -4, 2000]), spo_geom=t,
                           spo_pos4d=[env.matmul(perm, p) for p in pos4d], id_num_offset=n0,
                           reflectivity_interpolator=lambda e, x, grid: env.arr(
                               [refl(p, q) for p, q in zip(e, x)]))
    u, v = env.real('u', -3, 3), env.real('v', -10, 10)
    c, n = env.cos(ang[k]), env.sin(ang[k])
    r = t[k]['r_mid'] + v
    x, y = 3 + r * n + u * c, -4 + r * c - u * n
    e = env.real('energy', 0, 10)
    p = env.photons(2, pos=env.arr([[x, y, 3000, 1], [3, -4, 3000, 1]]),
                    dir=env.arr([[0, 0, -1, 0]] * 2), energy=env.arr([e, e]),
                    pol=env.arr([[1, 0, 0, 0]] * 2),
                    prob=env.arr([1, 1]))
    p = m(p)
    env.check('number of the optic', p['xou'][0] == n0 + k)
    env.check('no number for a miss', p['xou'][1] == -1)
    f = t[k]['focal_length']
    d = p['dir'][0]
    q = [x - 3, y + 4, f]
    env.check_vec('passes through the focus', env.cross(d[:3], env.arr(q)), [0, 0, 0])
    env.check_lt('downwards', d[2], 0)
    env.check_vec('where it hits', p['pos'][0], [x, y, 2000, 1])
    env.check_vec('miss goes straight on', p['dir'][1], [0, 0, -1, 0])
    want = refl(e, env.np.arccos(-d[2]) / 4)
    env.check_eq('reflectivity', p['probability'][0], want * want)


@harness(timeout=60)
def spo_scatter(env):
    """scatter of one channel: only photons with the numbers of this channel; it does not move
    photons."""
    import astropy.units as u
    s = env.imp('marxs.missions.athena.spo')
    no_polarization(env, env.imp('marxs.optics.scatter'))
    sc = s.ScatterPerChannel(min_id=1000, max_id=2000, inplanescatter=1 * u.arcsec,
                             perpplanescatter=0 * u.arcsec)
    ids = [-1, 0, 999, 1000, 1999, 2000, 10000]
    p = env.photons(len(ids), pos=env.arr([[2, env.real('y', 1, 5), env.real('z', 1, 5), 1]] *
                                          len(ids)),
                    dir=env.arr([[-1, 0, 0, 0]] * len(ids)),
                    pol=env.arr([[0, 1, 0, 0]] * len(ids)))
    p['xou'] = ids
    before = snapshot(p)
    p = sc(p)
    for i, k in enumerate(ids):
        if 1000 <= k < 2000:
            env.check('in %d: has an angle' % k, not env.isnan(p['inplanescatter'][i]))
        else:
            env.check('out %d: has no angle' % k, env.isnan(p['inplanescatter'][i]))
            env.check_vec('out %d: direction' % k, p['dir'][i], before['dir'][i])
        env.check_vec('place %d' % k, p['pos'][i], before['pos'][i])
    pr = env.real('p', 0, 1)
    q = env.photons(2, pos=env.arr([[0, 0, 0, 1]] * 2), dir=env.arr([[1, 0, 0, 0]] * 2),
                    prob=env.arr([pr, 1]))
    q['xou'] = [0, -1]
    s.spomounting(q)
    env.check_eq('through an optic', q['probability'][0], pr)
    env.check_eq('on the frame', q['probability'][1], 0)


@harness(timeout=60)
def spo_cover(env):
    """the rectangle that covers a petal is centred on it and reaches beyond the outermost places
    by the fraction of the size asked for."""
    s = env.imp('marxs.missions.arcus.spo')
    n = 3
    free = env.choice('free', ['x', 'y'])
    x = [env.real('x%d' % i, -9, 9) if free == 'x' and i < 2 else env.num(i) for i in range(n)]
    y = [env.real('y%d' % i, 1, 99) if free == 'y' and i < 2 else env.num(40 + i) for i in range(n)]
    t = spotable(env, [env.num(0)] * n, f=[1] * n, len=[1] * n, h=[1] * n,
                 inner=[env.num(10)] * n,
                 **({'az': [7, 6, 5]} if free == 'x' else {}),
                 **({'width': [2, 4, 3], 'az': [7, 6, 5]} if free == 'y' else {}))
    conf = {'spo_pos4d': [env.pos4d([x[i], y[i], i], env.rot(i), [1, 2, 3]) for i in range(n)],
            'spo_geom': t}
    mid = s.rmid_spo(conf)
    fa, fr = env.real('fa', 0, 2), env.real('fr', 0, 2)
    z = s.zoom_to_cover_all_spos(conf, fa, fr)
    hi, lo = env.np.max(env.arr(y)), env.np.min(env.arr(y))
    env.check_eq('middle', mid, (hi + lo) / 2)
    env.check_eq('thickness', z[0], 1)
    az = env.np.max(t['azwidth'])
    dr = env.np.max(t['outer_radius'] - t['inner_radius'])
    xh, xl = env.np.max(env.arr(x)), env.np.min(env.arr(x))
    env.check_eq('azimuth', z[1], (xh - xl) / 2 + fa * az)
    env.check_eq('radius', z[2], (hi - lo) / 2 + fr * dr)


CHAN = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}


class Linear:
    """linear interpolation in a table"""

    def __init__(self, env, x, y):
        self.env, self.x = env, [float(getattr(v, 'value', v)) for v in x]
        self.y = list(y)

    def at(self, e):
        x, y = self.x, self.y
        for k in range(len(x) - 1):
            if e <= x[k + 1]:
                return y[k] + (y[k + 1] - y[k]) * (e - x[k]) / (x[k + 1] - x[k])

    def __call__(self, e):
        return self.env.arr([self.at(v) for v in e])


def interp1d(env, m):
    if env.symbolic:
        env.patch(m, 'interp1d', lambda x, y, **kw: Linear(env, x, y))


def axis(env, chan, x, y):
    return {c: env.arr([x, y, 0, 1] if c == chan else [k, 2 * k, 0, 1])
            for k, c in enumerate(CHAN)}


@harness(timeout=100)
def arcus_aperture(env):
    """each channel has its own rectangle in front of its petal; channels 1 look up, 2 down."""
    a = env.imp('marxs.missions.arcus.arcus')
    one = env.num(1)
    t = spotable(env, [env.num(0)] * 2, inner=[600 * one, 610 * one], width=[20 * one] * 2,
                 az=[80 * one] * 2)
    h = env.real('h', 20, 30)
    conf = {'spo_geom': t, 'spo_pos4d': [env.pos4d([-100, 600 - h, 0], env.rot(0), [1, 1, 1]),
                                         env.pos4d([100, 600 + h, 0], env.rot(0), [1, 1, 1])]}
    chan = env.choice('channel', list(CHAN))
    x, y = env.real('x', -9, 9), env.real('y', -9, 9)
    conf['pos_opt_ax'] = axis(env, chan, x, y)
    before = {k: v.copy() for k, v in conf['pos_opt_ax'].items()}
    chans = env.choice('channels', [None, 'one'])
    ap = a.Aperture(conf, channels=[chan]) if chans else a.Aperture(conf)
    env.check('number of apertures', len(ap.elements) == (1 if chans else 4))
    g = ap.elements[0 if chans else a.channels.index(chan)].geometry
    env.check_vec('center', g['center'], [x, y + (600 if '1' in chan else -600), 12200, 1])
    wide, high = 100 + env.num(1.1) * 80, h + env.num(.8) * 20
    area = 4 * wide * high
    env.check_eq('area', ap.elements[0].area.to('mm2').value, area)
    env.check_eq('area of all', ap.area.to('mm2').value, area * (1 if chans else 4))
    env.check_eq('reaches along x', sum(abs(g[k][0]) for k in ('v_y', 'v_z')), wide)
    env.check_eq('reaches along y', sum(abs(g[k][1]) for k in ('v_y', 'v_z')), high)
    env.check_vec('flat', [g['v_y'][2], g['v_z'][2]], [0, 0])
    for k, v in before.items():
        env.check_vec('configuration %s' % k, conf['pos_opt_ax'][k], v)


@harness(timeout=200)
def arcus_spos(env):
    """the petal of each channel sits on its optical axis (turned by half a turn for channels 2);
    photons get numbers of the channel; the probability is multiplied with the reflectivity, the
    open fraction, that of the pores and the tabulated loss."""
    a = env.imp('marxs.missions.arcus.arcus')
    import astropy.units as u
    lens = env.imp('marxs.optics.mirror')
    no_polarization(env, lens)
    no_polarization(env, env.imp('marxs.optics.scatter'))
    interp1d(env, a)
    one = env.num(1)
    t = spotable(env, [env.num(0)] * 2, inner=[600 * one, 700 * one], width=[20 * one] * 2,
                 az=[40 * one] * 2, f=[12000 * one] * 2, len=[one] * 2, h=[one / 2] * 2)
    spo = env.imp('marxs.missions.athena.spo')
    perm = env.arr([r + [0] for r in PERM] + [[0, 0, 0, 1]])
    n = {k: env.real(k, 0, 1) for k in ('geometricthroughput', 'porespecifications')}
    loss = [env.real('loss%d' % i, 0, 1) for i in range(3)]
    env.patch(a, 'load_number', lambda d, f, v: n[f])
    tab = Rows(env, {'energy': [0, 2, 10], 'loss': loss}, {'energy': 'keV'})
    env.patch(a, 'load_table', lambda d, f: tab)
    chan = env.choice('channel', list(CHAN))
    rf = env.real('reflectivity', 0, 1)
    asked = []

    def reflect(en, x, grid):
        asked.extend(zip(en, x))
        return env.arr([rf for v in en])
    conf = {'spo_geom': t, 'pos_opt_ax': axis(env, chan, env.num(5), env.num(-7)),
            'spo_pos4d': [env.matmul(perm, env.arr(p)) for p in spo.spogeom2pos4d(t)],
            'inplanescatter': 0 * u.arcsec, 'perpplanescatter': 0 * u.arcsec,
            'reflectivity_interpolator': reflect}
    m = a.SimpleSPOs(conf, channels=[chan])
    k = env.choice('member', [0, 1])
    s = 1 if '1' in chan else -1
    v, e = env.real('v', -8, 8), env.choice('energy', [1, 4])
    r = t[k]['r_mid'] + v
    p0 = env.real('p0', 0, 1)
    p = env.photons(2, pos=env.arr([[5 + 7 * env.num(s), -7 + s * r, 13000, 1],
                                    [5, -7 - s * r, 13000, 1]]),
                    dir=env.arr([[0, 0, -1, 0]] * 2), energy=env.arr([e, 1]),
                    pol=env.arr([[1, 0, 0, 0]] * 2), prob=env.arr([p0, 1]))
    p = m(p)
    env.check('number of the optic', p['xou'][0] == CHAN[chan] + k)
    env.check('hits the frame', p['xou'][1] == -1)
    env.check_eq('lost at the frame', p['probability'][1], 0)
    d, q = p['dir'][0], p['pos'][0]
    env.check_near('hits the petal', q[2], 12000, 1e-6)
    foc = env.arr([5, -7, 0]) - q[:3]
    for i, c in enumerate(env.cross(d[:3], foc)):
        env.check_near('to the focus %d' % i, c, 0, 1e-6)
    env.check_lt('downwards', d[2], 0)
    l = loss[0] + (loss[1] - loss[0]) / 2 if e == 1 else loss[1] + (loss[2] - loss[1]) / 4
    env.check_eq('probability', p['probability'][0],
                 p0 * rf**2 * n['geometricthroughput'] * n['porespecifications'] * l)
    env.check('one reflection', len(asked) == 1)
    env.check_eq('energy of reflection', asked[0][0], e)
    env.check_near('angle of reflection', asked[0][1], env.np.arccos(-d[2]) / 4, 1e-9)


@harness(timeout=60)
def arcus_filters(env):
    """the transmission of all five filters and detectors is taken off, each interpolated at the
    energy of the photon."""
    a = env.imp('marxs.missions.arcus.arcus')
    interp1d(env, a)
    names = [('filters', 'sifilter'), ('filters', 'opticalblocking'), ('filters', 'uvblocking'),
             ('detectors', 'contam'), ('detectors', 'qe')]
    grid = [[0, 2, 8], [1, 2, 4], [0, 3, 9], [0, 1, 16], [1, 3, 5]]
    t = {n: [env.real('%s%d' % (n[1], i), 0, 1) for i in range(3)] for n in names}
    tab = {n: Rows(env, {'energy': g, 'transmission': t[n]}, {'energy': 'keV'})
           for n, g in zip(names, grid)}
    env.patch(a, 'load_table', lambda d, f: tab[d, f])
    f = a.FiltersAndQE(*env.choice('args', [(), ({}, ['1'])]))
    e = env.choice('energy', [2, 3, env.num(5) / 2])
    p0 = env.real('p0', 0, 1)
    p = env.photons(2, pos=env.arr([[0, 0, 0, 1]] * 2), dir=env.arr([[1, 0, 0, 0]] * 2),
                    energy=env.arr([e, 4]), prob=env.arr([p0, 1]))
    p = f(p)
    for i, (en, want) in enumerate([(e, p0), (env.num(4), env.num(1))]):
        for n, g in zip(names, grid):
            want = want * Linear(env, g, t[n]).at(en)
        env.check_eq('probability %d' % i, p['probability'][i], want)


def facets(env, free):
    from astropy.table import Table
    t = Table()
    n = 3
    val = {}
    for j, c in enumerate('XYZ'):
        val[c] = [env.real('%s%d' % (c, i), -50, 50) if free else env.num(10 * i * (j + 1) - 7 * j)
                  for i in range(n)]
    for i in range(n):
        r = env.rot([5, 7, 3][i])
        for k, name in enumerate(['NormN', 'DispN', 'GBarN']):
            for j, c in enumerate('XYZ'):
                val.setdefault(name + c, []).append(r[j][k])
    val['xsize'] = [env.real('xs%d' % i, 1, 30) if not free else env.num(28) for i in range(n)]
    val['ysize'] = [env.real('ys%d' % i, 1, 30) if not free else env.num(27) for i in range(n)]
    val['period'] = [env.real('d%d' % i, env.num(1) / 8192, env.num(1) / 4096) for i in range(n)]
    for k, v in val.items():
        t[k] = env.arr(v)
    t['facet_num'] = [10, 20, 21]
    t['SPO_MM_num'] = [4, 7, 7]
    return t, val


@harness(timeout=150)
def arcus_gratings(env):
    """gratings of the mechanical design: in the frame of the channel (mirrored along x for
    channels without m, along y for channels 2), with their own size, direction, period and
    number, grouped in windows."""
    a = env.imp('marxs.missions.arcus.ralfgrating')
    t, val = facets(env, env.choice('free', [True, False]))
    env.patch(a, 'load_table', lambda d, f: t)
    chan = env.choice('channel', list(CHAN))
    sel = env.imp('marxs.optics.grating').OrderSelector([0])
    ax = [env.real('ax%d' % i, -9, 9) for i in range(3)]
    m = a.CATfromMechanical(channel=chan, conf={'gratinggrid': {'elem_args': {
        'order_selector': sel}}}, pos4d=env.pos4d(ax, env.rot(0), [1, 1, 1]),
        id_num_offset=CHAN[chan])
    sign = [1 if 'm' in chan else -1, 1 if '1' in chan else -1, 1]
    for again in (0, 1):
        env.check('windows', [len(w.elements) for w in m.elements] == [1, 2])
        env.check('name of column', m.id_col == 'window' and m.elements[0].id_col == 'facet')
        el = [e for w in m.elements for e in w.elements]
        for i, e in enumerate(el):
            g = e.geometry
            name = '%d facet %d ' % (again, i)
            env.check_vec(name + 'center', g['center'],
                          [ax[k] + sign[k] * val['XYZ'[k]][i] for k in range(3)] + [1])
            for v, w, z in (('v_y', 'DispN', val['xsize'][i] / 2),
                            ('v_z', 'GBarN', val['ysize'][i] / 2)):
                env.check_vec(name + v, g[v], [sign[k] * z * val[w + 'XYZ'[k]][i]
                                               for k in range(3)] + [0])
            env.check_eq(name + 'period', e.elements[0]._d, val['period'][i])
            env.check(name + 'number', e.id_num == CHAN[chan] + [10, 20, 21][i])
            env.check(name + 'orders', e.elements[0].order_selector is sel)
        m.generate_elements()


@harness(timeout=150)
def arcus_camera(env):
    """16 chips lie on the Rowland circle of the detector, in two strips with the gaps between
    them asked for, at the position asked for."""
    a = env.imp('marxs.missions.arcus.arcus')
    sim = env.imp('marxs.simulator.simulator')
    import math
    conf = dict(a.defaultconf)
    free = env.choice('free', [True, False])
    p0 = env.real('p0', 0.02, 0.03) if free else 0.025
    conf['phi_det_start'] = p0
    row = conf['rowland_detector']
    r, d, w = float(row.r), float(conf['d']), 24.576
    gaps = [0, 2.15, 6.15, 8.3, 10.45, 14.45, 16.6, 18.75]
    if env.choice('layout', ['default', 'other']) == 'other':
        env.patch(a.DetCamera, 'd_ccd', 1.)
        env.patch(a.DetCamera, 'd_fsupport', 3.)
        env.patch(a.DetCamera, 'offset', [-2., 4.])
        gaps, shift = [0, 1, 4, 5, 6, 9, 10, 11], (2. / r, 4. / r)
    else:
        shift = 5. / r, 5. / r        # gaps of the two strips do not match
    centers, normals = [], {}
    if free:
        rec = {}

        class Chip:
            display = {}

        def init(self, **kw):
            rec.update(kw)
            self.elements = [Chip() for i in range(len(kw['pos_spec']))]
        env.patch(sim.ParallelCalculated, '__init__', init)
        torus = type('Torus', (), {'r': row.r, 'normal': None, 'pos4d': row.pos4d})()
        torus.parametric = lambda t, phi: [(v, phi) for v in t]
        conf['rowland_detector'] = torus
        a.DetCamera(conf)
        centers = list(rec['pos_spec'])
        env.check('first number', rec['id_num_offset'] == 1)
    else:
        cam = a.DetCamera(conf)
        centers = [e.geometry['center'] for e in cam.elements]
    env.check('number of chips', len(centers) == 16)
    arc = [(w + 2 * k * w + gaps[k]) / r for k in range(8)]
    z0 = math.sqrt(r * r - d * d)
    for i in range(16):
        # angle from the lowest point of the circle
        psi = -(arc[7 - i] + shift[1]) - p0 if i < 8 else arc[i - 8] - shift[0] + p0
        if free:    # the point of the torus at this angle: see C09
            env.check_near('on the circle %d' % i, centers[i][0],
                           math.asin(d / r) + math.pi - psi, 1e-9)
            env.check('in the plane %d' % i, centers[i][1] == 0)
            continue
        c, n = math.cos(psi), math.sin(psi)
        for j, (v, t) in enumerate(zip(centers[i], [r * n, 0, z0 - r * c, 1])):
            env.check_near('center %d %d' % (i, j), v, t, 1e-5)
        e = cam.elements[i]
        env.check('number %d' % i, e.id_num == i + 1)
        for j, (v, t) in enumerate(zip(e.geometry['v_y'], [c, 0, n, 0])):
            env.check_near('along the circle %d %d' % (i, j), abs(v), abs(w * t), 1e-4)
        for j, (v, t) in enumerate(zip(e.geometry['v_z'], [0, 12.288, 0, 0])):
            env.check_near('across the circle %d %d' % (i, j), abs(v), t, 1e-4)


def budget(env, kinds):
    t = [[env.real('b%d%d' % (k, i), -900, 900) for i in range(6)] for k in range(len(kinds))]
    return t, [[object, k, list(v), None, 'text'] for k, v in zip(kinds, t)]


@harness(timeout=60)
def error_budget(env):
    """tolerances: given as three sigma in micrometer and arcsec, used as one sigma in mm and
    radian; those of the whole instrument are scaled or drawn."""
    a = env.imp('marxs.missions.arcus.arcus')
    l = env.imp('marxs.missions.lynx.lynx')
    kinds = ['global', 'individual', 'global']
    vals, b = budget(env, kinds)
    vals2, b2 = [list(v) for v in vals], [[r[0], r[1], list(r[2]), None, r[4]] for r in b]
    fac = env.choice('factor', ['default', 'free', None])
    if fac is None:
        seq = [env.real('n%d' % i, -3, 3) for i in range(12)]
        for m in (a, l):
            it = iter(seq)
            env.patch(m.np.random, 'randn', lambda n, it=it: env.arr(
                [next(it) for i in range(n)]))
            (a.reformat_randall_errorbudget if m is a else l.reformat_errorbudget)(
                b if m is a else b2, globalfac=None)
        f = [seq[:6], [1] * 6, seq[6:]]
    else:
        v = env.num(0.8) if fac == 'default' else env.real('fac', 0, 2)
        kw = {} if fac == 'default' else {'globalfac': v}
        a.reformat_randall_errorbudget(b, **kw)
        l.reformat_errorbudget(b2, **kw)
        f = [[v] * 6, [1] * 6, [v] * 6]
    for k in range(3):
        for i in range(6):
            unit = env.num(1) / 1000 if i < 3 else env.PI / 180 / 3600
            env.check_eq('arcus %d %d' % (k, i), b[k][3][i], vals[k][i] * unit / 3 * f[k][i])
            env.check_eq('lynx %d %d' % (k, i), b2[k][3][i], vals[k][i] * f[k][i])
        env.check_vec('table stays %d' % k, b[k][2], vals[k])


@harness(timeout=60)
def arcus_pointing(env):
    """default pointing: along the optical axis, jitter is a FWHM in the table; everything given
    is used."""
    import astropy.units as u
    d = env.imp('marxs.missions.arcus.defaults')
    env.patch(d, 'load_number', lambda a, b, c: 4.709 * u.arcsec)
    from astropy.coordinates import SkyCoord
    given = env.choice('given', [0, 1])
    if given:
        j, c = 3 * u.arcsec, SkyCoord(11 * u.deg, -20 * u.deg)
        p = d.DefaultPointing(jitter=j, coords=c)
        s = d.DefaultSource(coords=c)
    else:
        j, c = 2 * u.arcsec, SkyCoord(30 * u.deg, 30 * u.deg)
        p = d.DefaultPointing()
        s = d.DefaultSource()
    env.check_near('jitter', float(p.jitter.to(u.arcsec).value), j.value, 1e-9)
    for k, v in (('pointing', p), ('source', s)):
        env.check(k + ' direction', abs(float(v.coords.separation(c).deg)) < 1e-9)
    for i in range(3):
        env.check_vec('axis %d' % i, env.matmul(p.reference_transform, env.arr(
            [int(k == i) for k in range(3)] + [0])), [[0, 0, 1, 0], [1, 0, 0, 0], [0, 1, 0, 0]][i])


def shells(env):
    from astropy.table import Table
    t = Table()
    ri = [env.real('inner%d' % i, 100 + 60 * i, 120 + 60 * i) for i in range(2)]
    ro = [a + env.real('width%d' % i, 10, 30) for i, a in enumerate(ri)]
    t['Metashell Serial Number'] = [7, 3]
    t['r_inner'] = env.arr(ri)
    t['r_outer'] = env.arr(ro)
    eff = Table()
    eff['energy'] = [1., 2., 8.]
    aeff = {}
    for k in (3, 5, 7):     # in cm**2
        aeff[k] = [env.real('aeff%d%d' % (k, i), 0, 900) for i in range(3)]
        eff[str(k)] = env.arr(aeff[k])
    return t, eff, ri, ro, aeff


@harness(timeout=60)
def lynx_shells(env):
    """rays start in the ring of a shell in front of the mirror and carry its number; the
    efficiency is the effective area of this shell at this energy by its open area."""
    m = env.imp('marxs.missions.lynx.mirror')
    interp1d(env, m)
    t, eff, ri, ro, aeff = shells(env)
    f = env.real('focallength', 100, 9000)
    conf = {'metashellgeometry': t, 'metashelleff': eff, 'focallength': f}
    k = env.choice('shell', [0, 1])
    ap = m.MetaShellAperture(conf)
    for i in range(2):
        g = ap.elements[i].geometry
        env.check_vec('center %d' % i, g['center'], [f + 200, 0, 0, 1])
        env.check_eq('inner radius %d' % i, g['r_inner'], ri[i])
        for v in ('v_y', 'v_z'):
            env.check_eq('outer radius %d %s' % (i, v), env.dot(g[v], g[v]), ro[i]**2)
            env.check_eq('faces the sky %d %s' % (i, v), g[v][0], 0)
    env.check_eq('area', ap.area.to('mm2').value,
                 env.PI * sum(b * b - a * a for a, b in zip(ri, ro)))
    serial = [7, 3][k]
    e = env.choice('energy', [1, 3, 8])
    p0 = env.real('p0', 0, 1)
    p = env.photons(2, pos=env.arr([[0, 0, 0, 1]] * 2), dir=env.arr([[-1, 0, 0, 0]] * 2),
                    energy=env.arr([e, 2]), prob=env.arr([p0, 1]))
    p['shell'] = [serial, [3, 7][k]]
    p = m.MetaShellEfficiency(conf)(p)
    for i, (s, en, q) in enumerate([(k, env.num(e), p0), (1 - k, env.num(2), env.num(1))]):
        a = Linear(env, [1, 2, 8], aeff[[7, 3][s]]).at(en)
        # the code works with the table of efficiencies
        want = a * 100 / (env.PI * (ro[s]**2 - ri[s]**2))
        env.check('efficiency %d' % i, env.or_(
            env.eq(p['probability'][i], q * want),
            env.and_(want >= 1, env.eq(p['probability'][i], q))))
    n = [-1, 3, 5]
    p = env.photons(3, pos=env.arr([[0, 0, 0, 1]] * 3), dir=env.arr([[-1, 0, 0, 0]] * 3),
                    energy=env.arr([2] * 3), prob=env.arr([p0] * 3))
    p['shell'] = n
    p = m.MetaShellEfficiency(conf)(p)
    env.check_eq('other numbers -1', p['probability'][0], p0)
    env.check_eq('other numbers 5', p['probability'][2], p0)


@harness(timeout=60)
def lynx_numbers(env):
    """a ray that starts in a shell has the serial number of this shell."""
    m = env.imp('marxs.missions.lynx.mirror')
    from astropy.table import Table
    t = Table()
    t['Metashell Serial Number'] = [7, 3]
    r = [(env.num(100), env.num(120)), (env.num(160), env.num(190))]
    t['r_inner'], t['r_outer'] = env.arr([a for a, b in r]), env.arr([b for a, b in r])
    ap = m.MetaShellAperture({'metashellgeometry': t, 'focallength': 1000})
    n = 2
    if env.symbolic:
        env.patch(m.np.random, 'shuffle', lambda a: None)
    p = env.photons(n, pos=env.arr([[0, 0, 0, 1]] * n), dir=env.arr([[-1, 0, 0, 0]] * n),
                    pol=env.arr([[0, 1, 0, 0]] * n))
    p.remove_column('pos')
    p = ap(p)
    for i in range(n):
        q = p['pos'][i]
        rr = q[1]**2 + q[2]**2
        env.check_eq('plane %d' % i, q[0], 1200)
        inside = [env.and_(a * a - 1 <= rr, rr <= b * b + 1) for a, b in r]
        env.check('number %d' % i, inside[[7, 3].index(int(p['shell'][i]))])


@harness(timeout=60)
def lynx_mirror(env):
    """the mirror is larger than the shells and focuses a beam along the axis onto the origin."""
    m = env.imp('marxs.missions.lynx.mirror')
    import astropy.units as u
    no_polarization(env, env.imp('marxs.optics.mirror'))
    no_polarization(env, env.imp('marxs.optics.scatter'))
    t, eff, ri, ro, aeff = shells(env)
    f = env.real('focallength', 1000, 9000)
    mir = m.MetaShellMirror({'metashellgeometry': t, 'focallength': f,
                             'inplanescatter': 0 * u.rad, 'perpplanescatter': 0 * u.rad})
    k = env.choice('shell', [0, 1])
    whole = env.choice('with efficiency', [False, True])
    r, along = env.choice('radius', [ri[k], ro[k]]), env.choice('along', [1, 2])
    x = [f + 100, env.num(0), env.num(0), env.num(1)]
    x[along] = r
    p0 = env.real('p0', 0, 1)
    p = env.photons(1, pos=env.arr([x]), dir=env.arr([[-1, 0, 0, 0]]),
                    pol=env.arr([[0, 1, 0, 0]]), energy=env.arr([3]), prob=env.arr([p0]))
    if whole:
        interp1d(env, m)
        mir = m.MetaShell({'metashellgeometry': t, 'metashelleff': eff, 'focallength': f,
                           'inplanescatter': 0 * u.rad, 'perpplanescatter': 0 * u.rad})
    p['shell'] = [[7, 3][k]]
    p = mir(p)
    want = Linear(env, [1, 2, 8], aeff[[7, 3][k]]).at(env.num(3)) * 100 / (
        env.PI * (ro[k]**2 - ri[k]**2)) if whole else env.num(1)
    env.check('efficiency', env.or_(env.eq(p['probability'][0], p0 * want),
                                    env.and_(want >= 1, env.eq(p['probability'][0], p0))))
    q, d = p['pos'][0], p['dir'][0]
    env.check_eq('in the plane of the mirror', q[0], f)
    env.check_vec('to the origin', env.cross(q[:3], d[:3]), [0, 0, 0])
    env.check_lt('down', d[0], 0)


@harness(timeout=60)
def axis_mirror(env):
    """reflectivity is taken from the table of the coating (angles in degrees in the names of its
    columns); the geometric efficiency scales all probabilities."""
    m = env.imp('marxs.missions.lynx.mirror')
    ax = env.imp('marxs.missions.AXIS.AXIS')
    from astropy.table import Table
    import types
    t = Table()
    t['energy'] = env.arr([1, 2, 5])
    for c in ('0.5', '1.5'):
        t[c] = env.arr([env.real('r%s%d' % (c, i), 0, 1) for i in range(3)])
    files, rec = [], []
    env.patch(m, 'Table', types.SimpleNamespace(read=lambda f, **kw: t))
    env.patch(m, 'get_pkg_data_filename', lambda f, **kw: files.append(f) or f)
    env.patch(m, 'RectBivariateSpline', lambda *a: rec.append(a))
    f = env.real('focallength', 1000, 9000)
    lens = m.PerfectLensSegment({'focallength': f, 'mirrorcoating': 'gold.dat'})
    env.check('name of file', files[0].split('/')[-1] == 'gold.dat' and len(rec) == 1)
    env.check_vec('energies', rec[0][0], [1, 2, 5])
    for a, want in zip(rec[0][1], (0.5, 1.5)):
        env.check_near('angle %s' % want, a, env.PI / 180 * want, 1e-12)
    for i in range(3):
        for j, c in enumerate(('0.5', '1.5')):
            env.check_eq('reflectivity %d %d' % (i, j), rec[0][2][i][j], t[c][i])
    env.check_eq('focal length', lens.focallength, f)
    s, p0 = env.real('scale', 0, 1), env.real('p0', 0, 1)
    p = env.photons(2, pos=env.arr([[0, 0, 0, 1]] * 2), dir=env.arr([[1, 0, 0, 0]] * 2),
                    prob=env.arr([p0, 0]))
    p = ax.MirrorGeometricScaling({'mirrorgeometricscaling': s})(p)
    env.check_vec('scaled', p['probability'], [p0 * s, 0])


@harness(timeout=60)
def lynx_arrays(env):
    """gratings have the size, frame, blaze angle and range of radii, detectors the range of the
    configuration; AXIS gives the range of the detectors from the optical axis."""
    l = env.imp('marxs.missions.lynx.lynx')
    ax = env.imp('marxs.missions.AXIS.AXIS')
    ro = env.imp('marxs.design.rowland')
    import types
    t, eff, ri, rout, aeff = shells(env)
    rec = []

    def init(self, **kw):
        rec.append((type(self), kw))
        self.elements = []
    env.patch(ro.CircularMeshGrid, '__init__', init)
    env.patch(ro.RectangularGrid, '__init__', init)
    size = [env.real('size%d' % i, 10, 90) for i in range(2)]
    frame = env.real('frame', 0, 5)
    lo, hi = env.real('lo', 0, 400), env.real('hi', 500, 900)
    cy = env.real('center', -9, 9)
    torus = types.SimpleNamespace(geometry={'center': env.arr([0, cy, 0, 1])})
    blaze = env.rot(5)
    sel, par = object(), env.arr([0, 1, 0, 0])
    conf = {'gas_kwargs': {'elem_args': {'order_selector': sel, 'd': env.num(1) / 4096},
                           'parallel_spec': par, 'normal_spec': 5, 'guess_distance': 77,
                           'elem_class': 'CAT'},
            'rowland': torus, 'grating_size': env.arr(size), 'grating_frame': frame,
            'metashellgeometry': t, 'blazemat': blaze,
            'det_kwargs': {'y_range': [lo, hi], 'd_element': [8, 9], 'elem_class': 'CCD',
                           'elem_args': {'zoom': [1, 4, 4]}}}
    l.LynxGAS(conf)
    kw = rec[-1][1]
    env.check('torus', kw['rowland'] is torus and kw['elem_class'] == 'CAT' and
              kw['elem_args']['order_selector'] is sel and kw['guess_distance'] == 77)
    env.check_vec('distance of gratings', kw['d_element'], [s + 2 * frame for s in size])
    env.check_vec('radii', kw['radius'], [ri[0], rout[1]])
    env.check_vec('half size', kw['elem_args']['zoom'], [1] + [s / 2 for s in size])
    for i in range(3):
        env.check_vec('blaze %d' % i, kw['elem_args']['orientation'][i], blaze[i])
    for cls, off in ((l.RowlandDetArray, 0), (ax.RowlandDetArray, cy)):
        cls(conf)
        kw = rec[-1][1]
        env.check('detector', kw['rowland'] is torus and kw['elem_class'] == 'CCD' and
                  kw['elem_args'] == {'zoom': [1, 4, 4]} and list(kw['d_element']) == [8, 9])
        env.check_vec('range', kw['y_range'], [lo - off, hi - off])
    env.check_vec('configuration', conf['det_kwargs']['y_range'], [lo, hi])


@harness(timeout=60)
def chirp(env):
    """gratings of Lynx and AXIS are chirped for the energy and order asked for, only if asked."""
    import types
    name = env.choice('mission', ['lynx', 'AXIS'])
    m = env.imp('marxs.missions.lynx.lynx' if name == 'lynx' else 'marxs.missions.AXIS.AXIS')
    c = env.imp('marxs.missions.mitsnl.catgrating')
    g = env.imp('marxs.optics.grating')
    kinds = [c.CATL1L2Stack(order_selector=g.OrderSelector([0]), zoom=[1, 5, 5],
                            position=[0, 20 * i, 0]) for i in range(2)]
    cls = m.PerfectLynx if name == 'lynx' else m.PerfectAXIS
    sub = type('Small', (cls,), {'add_mirror': lambda self, conf: [],
                                 'add_gas': lambda self, conf: list(kinds),
                                 'add_detectors': lambda self, conf: []})
    rec = []
    env.patch(m, 'NumericalChirpFinder', lambda det, **kw: rec.append((det, kw)) or 'finder')
    env.patch(m, 'chirp_gratings', lambda gr, opt, d: rec.append((list(gr), opt, d)))
    if name == 'AXIS':
        env.patch(m, 'FiltersAndQE', lambda: (lambda p: p))
    e, n, d = env.real('energy', 0, 9), env.real('order', -9, 0), env.real('d', 0, 1)
    conf = {'gas_kwargs': {'elem_args': {'d': d}}, 'rowland': m.conf['rowland']}
    asked = env.choice('asked', [True, False])
    if asked:
        conf.update(chirp_energy=e, chirp_order=n)
    sub(conf=conf)
    if not asked:
        env.check('not chirped', rec == [])
        return
    env.check('chirped once', len(rec) == 2 and rec[1][1] == 'finder')
    got, want = rec[0][0].geometry, m.detcirc.geometry
    env.check('on the circle', type(got) is type(want))
    for k in ('center', 'v_x', 'v_y', 'v_z'):
        env.check_vec('on the circle ' + k, got[k], want[k])
    for k, v in (('energy', e), ('order', n), ('d', d)):
        env.check_eq(k, rec[0][1][k], v)
    env.check_eq('period', rec[1][2], d)
    env.check('all gratings', [id(x) for x in rec[1][0]] == [id(k.elements[0]) for k in kinds])


@harness(timeout=60)
def chandra_rings(env):
    """rays through the aperture of the Chandra mirror start in the ring of the shell they carry;
    the mirror focuses them onto the origin and keeps two thirds."""
    m = env.imp('marxs.missions.chandra.hrma_py')
    mi, sc = env.imp('marxs.optics.mirror'), env.imp('marxs.optics.scatter')
    no_polarization(env, mi)
    no_polarization(env, sc)
    f = env.num(m.NOMINAL_FOCALLENGTH)
    r = [(598, 610), (481, 491), (424, 433), (315, 322)]
    ap = m.Aperture()
    env.check_near('area', ap.area.to('mm2').value, env.PI * sum(b * b - a * a for a, b in r), 1e-6)
    env.check('column', ap.id_col == 'mirror_shell' and len(ap.elements) == 4)
    if env.symbolic:
        env.patch(m.np.random, 'shuffle', lambda a: None)
        env.patch(sc.np.random, 'normal', lambda loc=0, scale=1, size=None: env.np.zeros(size))
    p = env.photons(1, pos=env.arr([[0, 0, 0, 1]]), dir=env.arr([[-1, 0, 0, 0]]),
                    pol=env.arr([[0, 1, 0, 0]]))
    p.remove_column('pos')
    p = ap(p)
    q = p['pos'][0]
    rr = q[1]**2 + q[2]**2
    env.check_near('plane', q[0], f, 1e-6)
    a, b = r[int(p['mirror_shell'][0])]
    env.check('ring', env.and_(a * a - 1 <= rr, rr <= b * b + 1))
    x, p0 = [f + 9, env.num(0), env.num(0), env.num(1)], env.real('p0', 0, 1)
    k, along = env.choice('shell', range(4)), env.choice('along', [1, 2])
    t = env.real('t', -1, 1)
    x[along] = env.num(r[k][0] + r[k][1]) / 2 + t * (r[k][1] - r[k][0]) / 2
    p = env.photons(2, pos=env.arr([x, [f + 9, 0, 651, 1]]), dir=env.arr([[-1, 0, 0, 0]] * 2),
                    pol=env.arr([[0, 1, 0, 0]] * 2), prob=env.arr([p0, 1]))
    p = m.HRMA()(p)
    q, d = p['pos'][0], p['dir'][0]
    env.check_near('probability', p['probability'][0], p0 * 0.66, 1e-9)
    env.check_near('in the plane of the mirror', q[0], f, 1e-6)
    env.check_lt('down', d[0], 0)
    if env.symbolic:
        for i, c in enumerate(env.cross(q[:3], d[:3])):
            env.check_near('to the origin %d' % i, c, 0, 1e-6)
    env.check_vec('passes by', p['dir'][1], [-1, 0, 0, 0])
    env.check_eq('passes by: probability', p['probability'][1], 1)
