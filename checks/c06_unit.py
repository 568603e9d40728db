"""Directions stay unit vectors, polarization stays perpendicular and keeps its length."""
from symx.worker import registry
from .elements import ELEMENTS, Frame, snapshot, selector
from .c05_missed import miss_row

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Incoming directions are unit vectors and incoming polarization vectors are perpendicular '
    'to them; only orders that propagate (the in-plane component stays below 1) are considered.',
]


def judge(env, name, before, after_dir, after_pol, i):
    d, p = after_dir[:3], after_pol[:3]
    env.check_unit('%s photon %d: unit direction' % (name, i), d)
    env.check_eq('%s photon %d: direction is a direction' % (name, i), after_dir[3], 0)
    env.check_eq('%s photon %d: polarization is a direction' % (name, i), after_pol[3], 0)
    env.check_eq('%s photon %d: polarization perpendicular' % (name, i), env.dot(d, p), 0)
    env.check_eq('%s photon %d: length of polarization' % (name, i), env.dot(p, p),
                 env.dot(before[i], before[i]))


def one(env, el, fr, u, d, q, energy=None, extra_miss=True):
    """photon (u, d) hits, the other misses; polarization is d x q."""
    d = env.arr(list(d))
    pol = env.cross(d, env.arr(list(q)))
    rows = [((u), d)] + ([miss_row(0)] if extra_miss else [])
    pos = env.arr([fr.pos(r[0]) for r in rows])
    dirs = env.arr([fr.dir(r[1]) for r in rows])
    pols = env.arr([fr.dir(pol)] + ([fr.dir([0, 1, 2])] if extra_miss else []))
    n = len(rows)
    en = env.arr([energy if energy is not None else 1] * n)
    ph = env.photons(n, pos, dirs, en, pols, env.arr([1] * n))
    before = snapshot(ph)
    out = el(ph)
    return before, out


N = {0: (-6, 2, 3), 1: (-3, -6, 2), 2: (-2, 3, 6)}


def ndir(env, k):
    return env.arr([env.num(x) / 7 for x in N[k]])



def deflected(env, d, out):
    """Leave out deflections below 1e-4 rad (the code does not rotate the polarization for
    deflections below 1e-8)."""
    x = env.cross(d[:3], out[:3])
    env.assume(env.dot(x, x) > env.num(1) / 10 ** 8)


def grating(env, cls, transmission, free, groove=0., rot=0, n=0):
    o = env.imp('marxs.optics.grating')
    fr = Frame(env, rot, c=(0, 0, 0), zoom=(1, 1000, 1000))
    m = env.choice('m', [-1, 2])
    e2w = env.imp('marxs').energy2wave
    w = env.real('wave', env.num(1) / 10 ** 6, 1) if not free else env.num(1) / 2 ** 10
    lines = env.real('lines', 1, 10 ** 6)      # per mm
    E, per = e2w / w, 1 / lines
    d = env.unit('d') if free else ndir(env, n)
    if free:
        env.assume(d[0] < -env.num(1) / 10)
    # keep only orders that propagate
    k = m * w * lines
    if groove == 'free':
        groove = env.angle('groove', -env.num(3) / 2, env.num(3) / 2)
    sin_, cos_ = env.sin(groove), env.cos(groove)
    # component perpendicular to the grooves
    pd = d[1] * cos_ + d[2] * sin_
    pl = -d[1] * sin_ + d[2] * cos_
    env.assume((pd + k) * (pd + k) + pl * pl < env.num(99) / 100)
    env.assume((pd - k) * (pd - k) + pl * pl < env.num(99) / 100)
    el = getattr(o, cls)(d=per, transmission=transmission,
                         order_selector=o.OrderSelector([m]), groove_angle=groove, **fr.kwargs())
    q = env.vec('q', 3, -1, 1) if not free else env.arr([1, 2, 3])
    before, out = one(env, el, fr, (5, 0, 0), d, q, E)
    deflected(env, before['dir'][0], out['dir'].data[0])
    judge(env, cls, before['polarization'], out['dir'].data[0], out['polarization'].data[0], 0)


def add(cls, transmission, free, groove=0., rot=0, n=0, tier='quick'):
    def f(env):
        grating(env, cls, transmission, free, groove, rot, n)
    f.__name__ = 'grating_%s_%s_%s' % (cls, 'trans' if transmission else 'refl',
                                       'free' if free else 'n%d' % n)
    f.__doc__ = ('%s, %s: %s ray, any wavelength and period with a propagating order -1 or 2, '
                 'groove angle %s, orientation %d' % (cls, 'transmission' if transmission
                                                      else 'reflection', 'any' if free else
                                                      'one oblique', groove, rot))
    harness(timeout=100, tier=tier)(f)


add('FlatGrating', True, False, n=0)
add('FlatGrating', False, False, n=1, groove='free')
add('CATGrating', True, False, n=2)
add('CATGrating', True, False, n=0, rot=5)
add('FlatGrating', True, True)
add('FlatGrating', False, True)
add('CATGrating', True, True, tier='thorough')
add('CATGrating', True, False, groove='free', n=1)
add('FlatGrating', True, False, groove='free', n=2, rot=2)


@harness(timeout=90)
def brewster(env):
    """mirror at the polarizing angle or not: any ray that is not along the normal; here the
    polarization is set to the reflected component, its length becomes 1."""
    o = env.imp('marxs.optics.multiLayerMirror')
    fr = Frame(env, 0, c=(0, 0, 0), zoom=(1, 1000, 1000))
    d = env.unit('d')
    env.assume(d[0] < -env.num(1) / 10)
    env.assume(d[1] * d[1] + d[2] * d[2] > env.num(1) / 100)
    el = o.FlatBrewsterMirror(**fr.kwargs())
    q = env.arr([0, 0, 1])
    s = env.cross(d, env.arr([1, 0, 0]))
    env.assume(env.dot(env.cross(d, q), s) != 0)
    before, out = one(env, el, fr, (5, 0, 0), d, q)
    dn, p = out['dir'].data[0], out['polarization'].data[0]
    env.check_unit('unit direction', dn)
    env.check_vec('mirrored', dn, [-d[0], d[1], d[2], 0])
    env.check_eq('polarization perpendicular', env.dot(dn[:3], p[:3]), 0)
    env.check_unit('unit polarization', p)
    env.check_eq('polarization is a direction', p[3], 0)


@harness(timeout=90)
def brewster_rotated(env):
    """polarizing mirror in a general orientation; one oblique ray, any polarization."""
    o = env.imp('marxs.optics.multiLayerMirror')
    fr = Frame(env, 5)
    d = ndir(env, 0)
    el = o.FlatBrewsterMirror(**fr.kwargs())
    q = env.vec('q', 3, -1, 1)
    s = env.cross(d, env.arr([1, 0, 0]))
    pol = env.cross(d, q)
    env.assume(env.dot(pol, pol) <= 1)
    sp = env.dot(pol, s)
    env.assume(env.or_(sp > env.num(1) / 1000, sp < -env.num(1) / 1000))
    before, out = one(env, el, fr, (6, -2, -3), d, q)
    dn, p = out['dir'].data[0], out['polarization'].data[0]
    env.check_vec('mirrored', dn, fr.dir([-d[0], d[1], d[2]]))
    env.check_eq('polarization perpendicular', env.dot(dn[:3], p[:3]), 0)
    env.check_unit('unit polarization', p)
    env.check_eq('polarization perpendicular to the plane of incidence',
                 env.dot(fr.dir([1, 0, 0])[:3], p[:3]), 0)


def _lens(mode):
    def f(env):
        o = env.imp('marxs.optics.mirror')
        if mode == 'place':        # any place on the lens, one direction
            fr = Frame(env, 5)
            d = ndir(env, 0)
            y, z = env.real('y', -2, 2), env.real('z', -4, 4)
            u = env.arr([y * 0 + 6, y - 2, z - 3])
            q = env.vec('q', 3, -1, 1)
        else:                      # any direction, one place
            fr = Frame(env, 0, c=(0, 0, 0), zoom=(1, 1000, 1000))
            d = env.unit('d')
            env.assume(d[0] < -env.num(1) / 10)
            u = env.arr([-3 * d[0], 1 - 3 * d[1], -3 * d[2]])
            q = env.arr([1, 2, 3])
        el = o.PerfectLens(focallength=20, **fr.kwargs())
        before, out = one(env, el, fr, u, d, q)
        deflected(env, before['dir'][0], out['dir'].data[0])
        judge(env, 'lens', before['polarization'], out['dir'].data[0],
              out['polarization'].data[0], 0)
    f.__name__ = 'lens_' + mode
    f.__doc__ = 'ideal lens: ' + {'place': 'any place, one direction, any polarization',
                                  'direction': 'any direction, one place'}[mode]
    return f


harness(timeout=100)(_lens('place'))
harness(timeout=100)(_lens('direction'))


@harness(timeout=90)
def thinlens(env):
    """thin lens: any place along a line, one direction, any polarization."""
    o = env.imp('marxs.optics.mirror')
    fr = Frame(env, 5)
    d = ndir(env, 0)
    z = env.real('z', -3, 3)
    u = env.arr([z * 0 + 6, 0 * z - 1, z - 3])
    q = env.vec('q', 3, -1, 1)
    el = o.ThinLens(focallength=20, **fr.kwargs())
    before, out = one(env, el, fr, u, d, q)
    judge(env, 'thin lens', before['polarization'], out['dir'].data[0],
          out['polarization'].data[0], 0)


def _scatter(kind, mode):
    def f(env):
        import astropy.units as u
        o = env.imp('marxs.optics.scatter')
        if mode == 'rotated':
            fr, d = Frame(env, 5), ndir(env, 0)
            z = env.real('z', -4, -2) if kind != 'both' else env.num(-3)
            start, q = env.arr([6, -1, z]), env.vec('q', 3, -1, 1)
        else:
            fr = Frame(env, 0, c=(0, 0, 0), zoom=(1, 1000, 1000))
            d = env.unit('d')
            env.assume(d[0] < -env.num(1) / 10)
            start, q = env.arr([5, 3, 4]), env.arr([1, 2, 3])
        if kind == 'random':
            el = o.RandomGaussianScatter(scatter=0.125 * u.rad, **fr.kwargs())
        elif kind == 'function':
            el = o.RandomGaussianScatter(scatter=Func(env), **fr.kwargs())
        else:
            kw = {'in': dict(inplanescatter=0.125 * u.rad),
                  'perp': dict(inplanescatter=0 * u.rad, perpplanescatter=0.125 * u.rad),
                  'both': dict(inplanescatter=0.125 * u.rad, perpplanescatter=0.25 * u.rad)}[kind]
            el = o.RadialMirrorScatter(**kw, **fr.kwargs())
        before, out = one(env, el, fr, start, d, q)
        deflected(env, before['dir'][0], out['dir'].data[0])
        judge(env, kind, before['polarization'], out['dir'].data[0],
              out['polarization'].data[0], 0)
    f.__name__ = 'scatter_%s_%s' % (kind, mode)
    f.__doc__ = ('scatter (%s), free random draws, %s' % (
        kind, 'general orientation, one direction, any polarization' if mode == 'rotated'
        else 'any direction'))
    return f


class Angle:
    def __init__(self, v):
        self.value = v

    def to(self, unit):
        return self


class Func:
    def __init__(self, env):
        self.env = env

    def __call__(self, photons, intersect, interpos, intercoos):
        n = int(intersect.sum())
        return Angle(self.env.arr([self.env.angle('scatter%d' % i, -1, 1) for i in range(n)]))

    def __eq__(self, o):
        return False


for _k in ('random', 'in', 'perp', 'both'):
    harness(timeout=80)(_scatter(_k, 'rotated'))
