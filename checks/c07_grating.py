"""Gratings obey the grating equation."""
from symx.worker import registry
from .elements import Frame, snapshot
from .c05_missed import miss_row
from .c06_unit import ndir

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Incoming directions are unit vectors with an angle of at most 84 degrees to the normal; '
    'only orders that propagate are considered. Wavelength * energy = 12.398419843320025 keV AA.',
]


def e2w(env):
    return env.imp('marxs').energy2wave


class Sel:
    """Order selector that hands out the given orders and records its arguments."""

    def __init__(self, env, orders, probs):
        self.env, self.orders, self.probs, self.seen = env, orders, probs, []

    def __call__(self, energy, pol, blaze):
        self.seen.append((energy, pol, blaze))
        return self.env.np.array(self.orders), self.env.arr(self.probs)


def propagates(env, a, b, k):
    env.assume(a * a + b * b < env.num(99) / 100)
    env.assume((a + k) * (a + k) + b * b < env.num(99) / 100)
    env.assume((a - k) * (a - k) + b * b < env.num(99) / 100)


def photons(env, fr, rows, energies):
    n = len(rows)
    pol = env.arr([fr.dir(env.cross(env.arr(list(d)), env.arr([1, 2, 3]))) for u, d in rows])
    return env.photons(n, env.arr([fr.pos(u) for u, d in rows]),
                       env.arr([fr.dir(d) for u, d in rows]), env.arr(energies), pol,
                       env.arr([1] * n))


def judge(env, name, fr, before, out, i, m, k, ga, cat=False, transmission=True):
    """k = wavelength / period (dimensionless), ga = (cos, sin) of the groove angle."""
    c, s = ga
    ex, ey, ez = fr.dir([1, 0, 0])[:3], fr.dir([0, 1, 0])[:3], fr.dir([0, 0, 1])[:3]
    # grooves make the angle ga with the local z axis
    groove = [s * -y + c * z for y, z in zip(ey, ez)]
    perp = [c * y + s * z for y, z in zip(ey, ez)]
    d0, d1 = before['dir'][i][:3], out['dir'].data[i][:3]
    a0, a1 = env.dot(d0, perp), env.dot(d1, perp)
    if cat:
        # positive orders: away from the normal, negative ones: towards (and through) it
        shift = m * k if a0 > 0 else -m * k
    else:
        shift = m * k
    env.check_eq(name + ': grating equation', a1, a0 + shift)
    env.check_eq(name + ': component along the grooves is kept', env.dot(d1, groove),
                 env.dot(d0, groove))
    n0, n1 = env.dot(d0, ex), env.dot(d1, ex)
    env.check_unit(name + ': unit', d1)
    if transmission:
        env.check(name + ': continues to the other side', n1 < 0 if n0 < 0 else n1 > 0)
    else:
        env.check(name + ': returns to the same side', n1 > 0 if n0 < 0 else n1 < 0)
    # blaze angle: angle to the normal in the plane perpendicular to the grooves
    b = out['blaze'].data[i]
    env.check_eq(name + ': blaze angle',
                 env.cos(b) * env.cos(b) * (n0 * n0 + a0 * a0), n0 * n0)
    env.check_le(name + ': blaze angle is not negative', 0, b)
    env.check_le(name + ': blaze angle is not above 90 deg', 0, env.cos(b))
    env.check_eq(name + ': order', out['order'].data[i], m)


def _one(cls, transmission, free, rot, back):
    def f(env):
        o = env.imp('marxs.optics.grating')
        fr = Frame(env, rot, c=(0, 0, 0) if free else (1, -2, 3), zoom=(1, 1000, 1000))
        ang = env.angle('groove', -env.num(3) / 2, env.num(3) / 2) if not free else env.num(0)
        c, s = env.cos(ang), env.sin(ang)
        d = env.unit('d') if free else ndir(env, 1)
        if back:
            d = -d
        if free:
            env.assume(env.or_(d[0] > env.num(1) / 10, d[0] < -env.num(1) / 10))
        w = env.real('wave', env.num(1) / 10 ** 6, 1)
        lines = env.real('lines', 1, 10 ** 6)
        m = env.choice('m', [-3, 0, 2])
        p = env.real('p', 0, 1)
        sel = Sel(env, [m], [p])
        k = w * lines
        propagates(env, c * d[1] + s * d[2], c * d[2] - s * d[1], m * k)
        kw = {} if free and not transmission is False else {}
        el = getattr(o, cls)(d=1 / lines, order_selector=sel, transmission=transmission,
                             groove_angle=ang, **fr.kwargs())
        start = [-5 * x for x in d]
        rows = [(start, d), ((2, 0, 0), (1, 0, 0))]
        ph = photons(env, fr, rows, [e2w(env) / w, 1])
        before = snapshot(ph)
        if cls == 'CATGrating':
            a = c * d[1] + s * d[2]
            env.assume(env.or_(a > env.num(1) / 1000, a < -env.num(1) / 1000))
        out = el(ph)
        judge(env, cls, fr, before, out, 0, m, k, (c, s), cls == 'CATGrating', transmission)
        env.check_eq('probability', out['probability'].data[0], p)
        env.check_eq('selector sees the energy', sel.seen[0][0][0], before['energy'][0])
        env.check_vec('selector sees the polarization', sel.seen[0][1][0],
                      before['polarization'][0])
        env.check_eq('selector sees the blaze angle', sel.seen[0][2][0], out['blaze'].data[0])
    f.__name__ = '%s_%s_%s%s' % (cls, 'trans' if transmission else 'refl',
                                 'free' if free else 'groove', '_back' if back else '')
    f.__doc__ = ('%s (%s): %s; any wavelength and period, orders -3, 0, 2' % (
        cls, 'transmission' if transmission else 'reflection',
        'any direction' if free else 'one oblique direction, any groove angle, orientation %d'
        % rot))
    return f


for _cls, _tr in (('FlatGrating', True), ('FlatGrating', False), ('CATGrating', True)):
    harness(timeout=100)(_one(_cls, _tr, True, 0, False))
    harness(timeout=100)(_one(_cls, _tr, False, 5, False))
harness(timeout=100)(_one('FlatGrating', True, False, 6, True))
harness(timeout=100)(_one('CATGrating', True, False, 6, True))


@harness(timeout=60)
def cat_normal_incidence(env):
    """CAT grating with light exactly along the normal: order m is displaced by m lambda/d towards
    one fixed side."""
    o = env.imp('marxs.optics.grating')
    fr = Frame(env, 5)
    m = env.choice('m', [-3, 2])
    w, lines = env.real('wave', env.num(1) / 10 ** 6, 1), env.real('lines', 1, 10 ** 6)
    k = w * lines
    propagates(env, env.num(0), env.num(0), m * k)
    el = o.CATGrating(d=1 / lines, order_selector=Sel(env, [m], [1]), **fr.kwargs())
    ph = photons(env, fr, [((5, 1, 1), (-1, 0, 0))], [e2w(env) / w])
    out = el(ph)
    env.check_vec('direction', out['dir'].data[0][:3],
                  fr.dir([-env.sqrt(1 - m * m * k * k), -m * k, 0])[:3])


@harness(timeout=90)
def mixed_list(env):
    """two photons with different energies and orders hit at different places, one misses; the
    period depends on the place on the grating."""
    o = env.imp('marxs.optics.grating')
    cls = env.choice('class', ['FlatGrating', 'CATGrating'])
    fr = Frame(env, 5, zoom=(1, 30, 40))
    g = env.func('lines', 1, 10 ** 6)
    seen = []

    def period(ic):
        seen.append(ic)
        return env.arr([1 / g(ic[j, 0], ic[j, 1]) for j in range(len(ic))])
    d0, d2 = ndir(env, 0), -ndir(env, 2)        # from both sides
    w0, w2 = env.real('w0', env.num(1) / 10 ** 6, 1), env.real('w2', env.num(1) / 10 ** 6, 1)
    a = env.real('a', -1, 1)
    y0, z0, y2, z2 = a, env.num(2), env.num(3), env.num(4)
    rows = [([0 - 7 * d0[0], y0 - 7 * d0[1], z0 - 7 * d0[2]], d0), miss_row(0),
            ([0 - 7 * d2[0], y2 - 7 * d2[1], z2 - 7 * d2[2]], d2)]
    k0, k2 = w0 * g(y0, z0), w2 * g(y2, z2)
    propagates(env, d0[1], d0[2], 2 * k0)
    propagates(env, d2[1], d2[2], k2)
    sel = Sel(env, [2, -1], [env.num(1) / 2, env.num(1) / 4])
    el = getattr(o, cls)(d=period, order_selector=sel, **fr.kwargs())
    ph = photons(env, fr, rows, [e2w(env) / w0, 1, e2w(env) / w2])
    before = snapshot(ph)
    out = el(ph)
    env.check_vec('the period is asked for at the places that are hit', seen[0],
                  [y0, z0, y2, z2])
    judge(env, 'photon 0', fr, before, out, 0, 2, k0, (1, 0), cls == 'CATGrating')
    judge(env, 'photon 2', fr, before, out, 2, -1, k2, (1, 0), cls == 'CATGrating')
    env.check_vec('photon 1 missed', out['dir'].data[1], before['dir'][1])
    env.check('photon 1 has no order', env.isnan(out['order'].data[1]))
    env.check_eq('probability 0', out['probability'].data[0], env.num(1) / 2)
    env.check_eq('probability 2', out['probability'].data[2], env.num(1) / 4)


@harness(timeout=60)
def constants(env):
    """wavelength in mm times energy in keV is h c."""
    env.check_near('h c / keV mm', env.num(e2w(env)) * 10 ** 6, env.num(1.2398419843320026),
                   env.num(1) / 10 ** 6)
    o = env.imp('marxs.optics.grating')
    env.check('period is required', env.raises(ValueError, lambda: o.FlatGrating(
        order_selector=Sel(env, [1], [1]))))
