"""Scattering of rays: in and out of the plane of reflection, and in random directions."""
from symx.worker import registry
from .elements import Frame, snapshot

HARNESSES, harness = registry()
NEEDS = ['marxs.optics.scatter', 'marxs.missions.mitsnl.catgrating']
ASSUMPTIONS = [
    'Two rays scatter, one misses; rays have one of three rational directions, places are '
    'symbolic (not along the radial direction), numbers drawn are arbitrary within 6 sigma, '
    'widths arbitrary.',
]
N = [(-6, 2, 3), (-3, -6, 2), (-2, 3, 6)]


def rays(env, fr, y, which=(0, 2)):
    """photons on the element; the second row is away from it."""
    n = [env.arr([env.num(x) / 7 for x in N[k]]) for k in which]
    place = [(0, y, 2), (0, -1, env.num(5) / 2)]
    pos, dirs, pols = [], [], []
    for u, d in zip(place, n):
        pos.append(fr.pos([u[i] - 0 * d[i] for i in range(3)]))
        dirs.append(fr.dir(d))
        pols.append(fr.dir(env.cross(d, env.arr([1, 2, 0]))))
    pos.insert(1, fr.pos((-3, 70, 1)))
    dirs.insert(1, fr.dir((-1, 0, 0)))
    pols.insert(1, fr.dir([0, 1, 2]))
    # rows 0 and 2 come from before the element
    for i in (0, 2):
        pos[i] = env.arr([pos[i][k] - 5 * dirs[i][k] for k in range(4)])
    ph = env.photons(3, env.arr(pos), env.arr(dirs), env.arr([1, 2, 3]), env.arr(pols),
                     env.arr([1] * 3))
    return ph, place


def no_transport(env, o):
    # polarization is the subject of C06 and C17
    if hasattr(o, 'parallel_transport'):
        env.patch(o, 'parallel_transport', lambda a, b, pol, **kw: pol)


def normals(env):
    return env.draws('normal', 'randn', 'standard_normal')


def rotate(env, v, axis, c, s):
    """v turned about a unit vector"""
    return c * v + s * env.cross(axis, v) + (1 - c) * env.dot(axis, v) * axis


def one_of(env, name, wanted, got):
    for w in wanted:
        if all(env.same(a, b) for a, b in zip(w, got)):
            return env.check(name, True)
    env.check(name, env.or_(*[env.and_(*[env.eq(a, b) for a, b in zip(w, got)])
                              for w in wanted]))


def width(env, name, unit):
    import astropy.units as u
    s = env.real(name, env.num(1) / 100, 10)
    k = {'arcsec': env.PI / 180 / 3600, 'arcmin': env.PI / 180 / 60, 'rad': 1,
         'deg': env.PI / 180}[unit]
    if unit == 'rad':
        s = s / 100
    return s * k, u.Quantity(env.arr([s]), getattr(u, unit))[0]


@harness(timeout=80)
def radial(env):
    """scatter in the plane of ray and radius, and about the radius, by the recorded angles,
    drawn independently from normal distributions with the widths given."""
    import astropy.units as u
    o = env.imp('marxs.optics.scatter')
    no_transport(env, o)
    kind = env.choice('kind', ['in', 'perp', 'both', 'none'])
    fr = Frame(env, env.choice('rot', [0, 5]), zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    kw = {}
    si, qi = width(env, 'in', env.choice('unit', ['arcsec', 'deg'] if kind == 'in' else ['arcmin']))
    sp, qp = width(env, 'perp', 'rad')
    if kind in ('perp', 'none'):
        qi = 0 * u.arcsec
    kw['inplanescatter'] = qi
    if kind in ('perp', 'both'):
        kw['perpplanescatter'] = qp
    el = o.RadialMirrorScatter(**kw, **fr.kwargs())
    ph, place = rays(env, fr, y)
    before = snapshot(ph)
    inter = el.geometry.intersect(ph['dir'].data, ph['pos'].data)
    # the last interaction is on the mirror that scatters
    for row, i in enumerate((0, 2)):
        ph['pos'][i] = fr.pos(place[row])
    out = el.process_photons(ph, *inter)
    zs = normals(env)
    want = {'in': 2, 'perp': 2, 'both': 4, 'none': 0}[kind]
    env.check('numbers drawn', len(zs) == want)
    ia, pa = out['inplanescatter'].data, out['perpplanescatter'].data
    free = list(zs)
    for i in (0, 2):
        for used, got, sig in ((kind in ('in', 'both'), ia[i], si),
                               (kind in ('perp', 'both'), pa[i], sp)):
            if not used:
                env.check_eq('no scatter', got, 0)
                continue
            k = [j for j, z in enumerate(free)
                 if env.same(got, sig * z) or env.same(got, -sig * z)]
            env.check('normal distribution with this width, each ray on its own', len(k) > 0)
            if not k:
                return
            free.pop(k[0])
    for row, i in enumerate((0, 2)):
        d0 = env.arr(before['dir'][i][:3])
        d1 = env.arr(out['dir'].data[i][:3])
        r = env.matmul(fr.R, env.arr(list(place[row])))
        t = env.cross(d0, r)
        t = t / env.sqrt(env.dot(t, t))
        r = r / env.sqrt(env.dot(r, r))
        ca, sa = env.cos(ia[i]), env.sin(ia[i])
        cp, sp_ = env.cos(pa[i]), env.sin(pa[i])
        ok = []
        for f in (1, -1)[:2 if kind in ('in', 'both') else 1]:
            for g in (1, -1)[:2 if kind in ('perp', 'both') else 1]:
                w = rotate(env, rotate(env, d0, t, ca, f * sa), r, cp, g * sp_)
                ok.append(w)
        one_of(env, 'scattered by the angles', ok, d1)
        env.check_eq('is a direction', out['dir'].data[i][3], 0)
        env.check_eq('is a unit vector', env.dot(d1, d1), 1)
        env.check_vec('at the place on the element', out['pos'].data[i][:3], fr.pos(place[row])[:3])
    env.check('missed: no angle', env.isnan(ia[1]) and env.isnan(pa[1]))
    env.check_vec('missed: same direction', out['dir'].data[1], before['dir'][1])


@harness(timeout=80)
def random_direction(env):
    """scatter by the recorded angle, with any azimuth equally probable."""
    import astropy.units as u
    o = env.imp('marxs.optics.scatter')
    no_transport(env, o)
    kind = env.choice('kind', ['number', 'callable', 'class', 'zero'])
    fr = Frame(env, env.choice('rot', [0, 5]), zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    k = env.choice('dir', [0, 1, 2])
    sig, q = width(env, 's', env.choice('unit', ['arcsec', 'deg']))
    ang = [env.real('a%d' % i, -1, 1) for i in range(2)]
    args = []

    def f(*a):
        args.append(a)
        return u.Quantity(env.arr([x * 1000 for x in ang]), u.mrad)
    cls = o.RandomGaussianScatter
    kw = {}
    if kind == 'number':
        kw['scatter'] = q
    elif kind == 'callable':
        kw['scatter'] = f
    elif kind == 'zero':
        kw['scatter'] = env.choice('zero', [0, 0 * u.rad])
    else:
        class Sub(o.RandomGaussianScatter):
            scattername = 'other'

            def scatter(self, *a):
                return f(*a)
        cls = Sub
    el = cls(**kw, **fr.kwargs())
    ph, place = rays(env, fr, y, (k, k))
    before = snapshot(ph)
    out = el(ph)
    if kind == 'zero':
        env.check('nothing drawn', not env.draws())
        for i in range(3):
            env.check_vec('same direction', out['dir'].data[i], before['dir'][i])
        return
    a = out[cls.scattername].data
    zs = normals(env)
    us = env.draws('uniform', 'rand', 'random')
    env.check('one azimuth for each ray', len(us) == 2)
    if kind == 'number':
        env.check('one angle for each ray', len(zs) == 2)
        env.check('normal distribution', sorted(
            [j for i in (0, 2) for j in range(2) if env.same(a[i], sig * zs[j]) or
             env.same(a[i], -sig * zs[j])]) == [0, 1])
    else:
        env.check('function is called', len(args) == 1 and len(args[0]) == 4)
        p, inter, ip, ic = args[0]
        env.check('rays', [bool(x) for x in inter] == [True, False, True])
        for row, i in enumerate((0, 2)):
            env.check_near('angle', a[i], ang[row], 1e-9)
    for row, i in enumerate((0, 2)):
        d0 = env.arr(before['dir'][i][:3])
        d1 = env.arr(out['dir'].data[i][:3])
        c = env.cos(a[i])
        env.check_eq('angle of scatter', env.dot(d0, d1), c)
        env.check_eq('unit vector', env.dot(d1, d1), 1)
        env.check_vec('at the place on the element', out['pos'].data[i][:3], fr.pos(place[row])[:3])
    # azimuth: parallel rays are turned by 2 pi times the difference of their numbers
    side = []
    for i in (0, 2):
        d0 = env.arr(before['dir'][i][:3])
        d1 = env.arr(out['dir'].data[i][:3])
        side.append(d1 - env.cos(a[i]) * d0)
    t = [2 * env.PI * x for x in us]
    env.check_eq('azimuth', env.dot(*side), env.sin(a[0]) * env.sin(a[2]) *
                 (env.cos(t[0]) * env.cos(t[1]) + env.sin(t[0]) * env.sin(t[1])))
    env.check('missed: no angle', env.isnan(a[1]))
    env.check_vec('missed: same direction', out['dir'].data[1], before['dir'][1])


@harness(timeout=60)
def settings(env):
    """scatter is required and given where it is needed."""
    import astropy.units as u
    o = env.imp('marxs.optics.scatter')
    env.check('required', env.raises(ValueError, lambda: o.RandomGaussianScatter()))
    env.check('required', env.raises(KeyError, lambda: o.RadialMirrorScatter()))
    s = env.real('s', 0, 10)
    el = o.RadialMirrorScatter(inplanescatter=u.Quantity(env.arr([s]), u.mrad)[0])
    env.check_near('radian', el.inplanescatter * 1000, s, 1e-9)
    env.check_eq('default', el.perpplanescatter, 0)
