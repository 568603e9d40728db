"""Chirped gratings: rays used to find the chirp, corrections, periods that vary over a grating."""
from symx.worker import registry
from .elements import Frame
from .c06_unit import ndir
from .c07_grating import judge, photons, propagates, e2w, Sel

HARNESSES, harness = registry()
NEEDS = ['marxs.design.bendgratings', 'marxs.utils', 'marxs.optics.grating']
ASSUMPTIONS = [
    'The minimizer and the spline (scipy) are replaced: the minimizer by one that evaluates the '
    'function at any two numbers and returns any number, the spline by its values at the nodes. '
    'For the search gratings and detectors are stand-ins that record the photon and return any '
    'linear function of the period and of the place where the ray starts.',
]


class Geo:
    """center and edges of a plane, or a tube"""

    def __init__(self, env, fr):
        self.v = {'center': fr.pos([0, 0, 0]), 'v_y': fr.dir([0, fr.zoom[1], 0]),
                  'v_z': fr.dir([0, 0, fr.zoom[2]])}
        self.pos4d = env.pos4d(list(fr.c), fr.R, list(fr.zoom))

    def __getitem__(self, k):
        return self.v[k].copy()


class Grating:
    """records photons and period; spoils the photon for the next run"""

    def __init__(self, env, geometry, d, original):
        self.env, self.geometry, self._d, self.order_selector = env, geometry, d, original
        self.seen = []

    def __call__(self, p):
        env = self.env
        o, pr = self.order_selector(p['energy'].data, p['dir'].data, env.arr([0]))
        self.seen.append({'d': self._d, 'pos': list(p['pos'][0]), 'dir': list(p['dir'][0]),
                          'energy': p['energy'][0], 'n': len(p), 'order': list(o),
                          'prob': p['probability'][0], 'sel': list(env.arr(pr))})
        p['pos'] = env.arr([[7, 8, 9, 1]])
        p['dir'] = env.arr([[0, 1, 0, 0]])
        p['probability'] = env.arr([0])
        return p


def start(env, name, s, p, e, order):
    """ray s starts beyond p on the line to the origin."""
    env.check(name + 'one photon', s['n'] == 1)
    x, d = s['pos'][:3], s['dir'][:3]
    for i in range(3):
        j = (i + 1) % 3
        env.check_eq(name + 'starts on the line through the grating', x[i] * p[j], x[j] * p[i])
        env.check_eq(name + 'goes to the origin', d[i] * p[j], d[j] * p[i])
    env.check_lt(name + 'starts outside', env.dot(p, p), env.dot(x, p))
    env.check_lt(name + 'inward', env.dot(d, p), 0)
    env.check_unit(name + 'unit', d)
    env.check_eq(name + 'w of position', s['pos'][3], 1)
    env.check_eq(name + 'w of direction', s['dir'][3], 0)
    env.check_eq(name + 'energy', s['energy'], e)
    env.check('%sorder' % name, s['order'] == [order])
    env.check_eq(name + 'probability', s['prob'], 1)


def search(env, cls, geo, point):
    """geo: geometries of gratings, point(i, u, v): place in grating i"""
    b = env.imp('marxs.design.bendgratings')
    e = env.real('e', env.num(1) / 10, 10)
    base = env.positive('base', hi=1)
    a, k, c = env.real('a', -9, 9), env.real('k', -9, 9), env.real('c', -9, 9)
    col = env.choice('column', ['detcirc_phi', 'other'])
    order = -3 if col == 'other' else 2
    grat = [Grating(env, g, base * 5, Sel(env, [1, 4], [1, 1])) for g in geo]
    orig = [g.order_selector for g in grat]
    now = []

    def value(s):
        return a * s['d'] + k * s['pos'][1] + c

    def detector(p):
        p[col] = env.arr([value(now[0].seen[-1])])
        p['decoy'] = env.arr([17])
        return p
    calls = []
    x = []

    class Res:
        def __init__(self, v):
            self.x = v

    def minimize(f, *args, **kw):
        n = len(now[0].seen)
        i = len(x)
        d = [env.positive('d%d_%d' % (i, j), hi=2) for j in range(1 if i else 2)]
        calls.append([(v, f(v)) for v in d])
        env.check('one ray for each period', len(now[0].seen) == n + len(d))
        x.append(env.positive('x%d' % i, hi=2))
        return Res(x[-1])
    env.patch(b, 'minimize_scalar', minimize)
    kw = {} if col == 'detcirc_phi' else {'colname': col}
    f = getattr(b, cls)(detector, order, e, d=base, **kw)
    which = env.choice('places', [([-1, 1], [0]), ([0], [1, -1])])
    for i, g in enumerate(grat):
        us, vs = which if i == 0 else ([1], [env.num(-1) / 2])
        now[:] = [g]
        del calls[:]
        first = len(x)
        n0 = len(g.seen)
        corr = f(g, env.arr(us), env.arr(vs))
        env.check('shape', tuple(corr.shape) == (len(us), len(vs)))
        central = point(i, env.num(0), env.num(0))
        s = g.seen[n0]
        start(env, 'central ray: ', s, central, e, order)
        env.check_eq('period of the central ray', s['d'], base)
        goal = value(s)
        it = iter(g.seen[n0 + 1:])
        m = 0
        for j, u in enumerate(us):
            for l, v in enumerate(vs):
                env.check_eq('correction', corr[j, l], x[first + m])
                p = point(i, env.num(u), env.num(v))
                for d, got in calls[m]:
                    s = next(it)
                    start(env, 'ray: ', s, p, e, order)
                    env.check_eq('period', s['d'], d * base)
                    diff = value(s) - goal
                    env.check_eq('distance', got * got, diff * diff)
                    env.check_le('distance is positive', 0, got)
                m += 1
        env.check('no other searches', len(calls) == m)
        env.check('selector is kept', g.original_orderselector is orig[i])
    env.check('original is not used', all(not o.seen for o in orig))
    if col == 'other':
        f.set_grat(grat[0])
        env.check('selector is still kept', grat[0].original_orderselector is orig[0])


@harness(timeout=90)
def plane(env):
    """flat gratings: for all places asked for, a ray of the energy and order asked for runs
    from outside through this place towards the origin, and the distance to the place of the
    central ray on the detector is made small."""
    fr = [Frame(env, 5, [env.num(10), 0, 0], (1, env.num(2), 1)),
          Frame(env, 0, [env.num(8), env.real('y', -5, 5), 3], (1, env.num(1), 2))]
    search(env, 'NumericalChirpFinder', [Geo(env, f) for f in fr],
           lambda i, u, v: fr[i].pos([0, u * fr[i].zoom[1], v * fr[i].zoom[2]])[:3])


@harness(timeout=60)
def places(env):
    """place of a ray on flat gratings and on tubes, for any place and size."""
    b = env.imp('marxs.design.bendgratings')
    geo = env.imp('marxs.math.geometry')
    kind = env.choice('kind', ['flat', 'tube'])
    fr = Frame(env, env.choice('rot', [0, 5]), env.vec('c'),
               (1, env.positive('zy', hi=9), env.positive('zz', hi=9)))
    if kind == 'flat':
        u, v = env.real('u', -1, 1), env.real('v', -1, 1)
        f = b.NumericalChirpFinder(None, 1, 2., d=1)
        want = fr.pos([0, u * fr.zoom[1], v * fr.zoom[2]])[:3]
        g = Geo(env, fr)
    else:
        u, v = env.choice('u', [-1, 0, 1]), env.real('v', -1, 1)
        mid, half = env.angle('mid', -1, 1), env.angle('half', env.num(1) / 100, 1)
        f = b.BendNumericalChirpFinder(None, 1, 2., d=1)
        R = fr.zoom[1]
        fr.zoom[0] = R
        phi = mid + u * half
        want = fr.pos([R * env.cos(phi), R * env.sin(phi), v * fr.zoom[2]])[:3]
        g = geo.Cylinder({'position': list(fr.c), 'orientation': fr.R, 'zoom': list(fr.zoom),
                          'phi_lim': [mid - half, mid + half]})
    f.grat = Grating(env, g, 1, None)
    f.uv = [u, v]
    env.check_vec('place', f.posongrat(), want)


@harness(timeout=60)
def chirped(env):
    """each grating gets the periods found for it, at the coordinates of the places; the orders
    are selected as before."""
    b = env.imp('marxs.design.bendgratings')

    class Spline:
        def __init__(self, x, y, z, bbox=[None] * 4, kx=3, ky=3, s=0):
            self.x, self.y, self.z, self.b = list(x), list(y), z, bbox
            env.check('enough nodes', len(self.x) > kx and len(self.y) > ky)
            env.check('shape', tuple(z.shape) == (len(self.x), len(self.y)))

        def __call__(self, x, y, grid=True):
            env.check('one value for each photon', not grid and len(x) == len(y))
            out = []
            for p, q in zip(x, y):
                k = [i for i in range(len(self.x)) if env.eq(p, self.x[i])]
                if len(k) != 1:
                    return env.arr([-1] * len(x))
                for w in self.z[k[0]]:
                    env.check_eq('period does not depend on the other coordinate', w,
                                 self.z[k[0]][0])
                lo = self.b[2] if self.b[2] is not None else self.y[0]
                hi = self.b[3] if self.b[3] is not None else self.y[-1]
                env.check_le('inside', lo, q)
                env.check_le('inside', q, hi)
                out.append(self.z[k[0]][0])
            return env.arr(out)
    env.patch(b, 'RectBivariateSpline', Spline)
    n = env.choice('number of places', [3, 4])
    us = [-1, 0, 1] if n == 3 else [-1, env.num(-1) / 2, 0, 1]
    fr = [Frame(env, 5, [10, 0, 0], (1, 2, env.num(3))),
          Frame(env, 0, [8, 3, 3], (1, env.positive('zy', hi=9), env.positive('zz', hi=9)))]
    # norms of the edges are square roots: start from the squares
    grat = [Grating(env, Geo(env, f), 5, 'selector %d' % i) for i, f in enumerate(fr)]
    d = env.positive('d', hi=1)
    corr = [[env.positive('c%d_%d' % (i, j), hi=2) for j in range(n)] for i in range(2)]
    calls = []

    def opt(g, *args, **kw):
        calls.append((g, args, kw))
        i = [k for k in range(2) if grat[k] is g][0]
        g.original_orderselector = g.order_selector
        g.order_selector = 'other'
        return env.arr([[c] for c in corr[i]])
    b.chirp_gratings(grat, opt, d, env.arr(us))
    env.check('each once', [c[0] for c in calls] == grat)
    for c in calls:
        env.check_vec('places', (list(c[1]) + list(c[2].values()))[0], us)
    f = [env.real('f%d' % i, -1, 1) for i in range(2)]
    for i, g in enumerate(grat):
        env.check('selector', g.order_selector == 'selector %d' % i)
        ly, lz = fr[i].zoom[1], fr[i].zoom[2]
        for j in range(n):
            k = (j + 1) % n
            got = g._d(env.arr([[us[j] * ly, f[0] * lz], [us[k] * ly, f[1] * lz]]))
            env.check_eq('period', got[0], d * corr[i][j])
            env.check_eq('period of the next photon', got[1], d * corr[i][k])


@harness(timeout=100)
def period(env):
    """gratings with a period that depends on the place: every photon is diffracted with the
    period where it meets the grating."""
    o = env.imp('marxs.optics.grating')
    cls = env.choice('class', ['FlatGrating', 'CATGrating'])
    fr = Frame(env, 5, c=(1, -2, 3), zoom=(1, 10, 10))
    w = env.real('wave', env.num(1) / 10 ** 6, env.num(1) / 10)
    a, g, c = env.real('a', -1, 1), env.real('g', -1, 1), env.real('c', 25, 30)
    m = env.choice('m', [-1, 2])

    class D:
        def __call__(self, x):
            return env.arr([1 / (a * r[0] + g * r[1] + c) for r in x])
    d = ndir(env, 1)
    y = [(2, 3), (-7, env.real('z', -9, 9))]
    rows = [([p - 5 * q for p, q in zip((0, y[0][0], y[0][1]), d)], d),
            ((2, 0, 0), (1, 0, 0)),
            ([p - 5 * q for p, q in zip((0, y[1][0], y[1][1]), d)], d)]
    el = getattr(o, cls)(d=D(), order_selector=Sel(env, [m, m], [1, 1]), **fr.kwargs())
    ph = photons(env, fr, rows, [e2w(env) / w, 1, e2w(env) / w])
    from .elements import snapshot
    before = snapshot(ph)
    env.patch(o, 'parallel_transport', lambda a, b, pol: pol)
    ks = [w * (a * p + g * q + c) for p, q in y]
    for k in ks:
        propagates(env, d[1], d[2], m * k)
    out = el(ph)
    judge(env, 'first', fr, before, out, 0, m, ks[0], (1, 0), cls == 'CATGrating', True)
    judge(env, 'last', fr, before, out, 2, m, ks[1], (1, 0), cls == 'CATGrating', True)
    env.check_vec('missed', out['dir'][1], before['dir'][1])
