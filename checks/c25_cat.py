"""CAT gratings with the structures that support them."""
from symx.worker import registry
from .elements import Frame, snapshot
from .c07_grating import Sel, e2w, photons, propagates

HARNESSES, harness = registry()
NEEDS = ['marxs.missions.mitsnl.catgrating']
ASSUMPTIONS = [
    'Two rays hit (rational directions, symbolic places), one misses. Sizes of bars and periods, '
    'probabilities, random numbers and places are symbolic, energies are those of the table of '
    'transmissions or between two of them.',
]
N = [(-6, 2, 3), (-6, -3, 2), (-3, 6, -2)]


def mod(env):
    c = env.imp('marxs.missions.mitsnl.catgrating')
    if env.symbolic and hasattr(c, 'interp1d'):
        import scipy.interpolate
        import numpy

        class Interp(scipy.interpolate.interp1d):
            def __call__(self, x):     # energies are constants
                return super().__call__(numpy.array([float(v) for v in x]))
        env.patch(c, 'interp1d', Interp)
    return c


def q(env, x, unit):
    import astropy.units as u
    return u.Quantity(env.arr([x]), getattr(u, unit))[0]


def rays(env, fr, y, which=(0, 2)):
    rows = []
    for k, p in zip(which, [(0, y, 2), (0, -1, env.num(5) / 2)]):
        d = [env.num(x) / 7 for x in N[k]]
        rows.append(([p[i] - 5 * d[i] for i in range(3)], d))
    rows.insert(1, ((-3, 70, 1), (-1, 0, 0)))
    return rows


def transmission(env, energy, depth):
    """of silicon, depth in micron: computed from the table"""
    import numpy
    t = mod(env).l1transtab
    e = numpy.array(t['energy'], dtype=float) / 1000
    tr = numpy.array(t['transmission'], dtype=float)**depth
    return float(numpy.interp(energy, e, tr))


@harness(timeout=80)
def support(env):
    """a ray passes between the bars of the fine support and is diffracted, or goes through the
    bars straight on; the fraction of bars is their width divided by their period."""
    import astropy.units as u
    c = mod(env)
    o = env.imp('marxs.optics.grating')
    fr = Frame(env, env.choice('rot', [0, 5]), zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    f = env.real('f', env.num(1) / 50, env.num(49) / 50)
    lines = env.real('lines', 100, 1000)        # 1 / mm
    depth, unit = env.choice('depth', [(4., 'um'), (.0005, 'mm')])
    l1 = {'period': q(env, 1 / lines, 'mm'), 'barwidth': q(env, 1000 * f / lines, 'um'),
          'bardepth': depth * getattr(u, unit)}
    m = env.choice('m', [(-1, 2), (3, 0)])
    p = [env.real('p%d' % i, 0, 1) for i in range(2)]
    en = env.choice('energy', [(1, 3), (env.num(3) / 2, env.num(4))])
    w = [env.num(e2w(env)) / x for x in en]
    rows = rays(env, fr, y)
    el = c.L1(l1_dims=l1, order_selector=Sel(env, list(m), p), **fr.kwargs())
    ref = o.CATGrating(d=1 / lines, order_selector=Sel(env, list(m), p), **fr.kwargs())
    energies = [en[0], 2, en[1]]
    ph = photons(env, fr, rows, energies)
    before = snapshot(ph)
    want = ref(photons(env, fr, rows, energies))
    n = len(env.draws())
    out = el(ph)
    us = env.draws()[n:]
    env.check('one number for each ray', len(us) == 2)
    bar = []
    for k, i in enumerate((0, 2)):
        straight = all(env.same(a, b) for a, b in zip(out['dir'].data[i], before['dir'][i])) and \
            not (env.same(out['probability'].data[i], p[k]))
        bar.append(straight)
        if straight:
            env.check_eq('order', out['order_L1'].data[i], 0)
            env.check_vec('polarization', out['polarization'].data[i], before['polarization'][i])
            env.check_near('transmission', out['probability'].data[i],
                           transmission(env, float(en[k]), 4 if unit == 'um' else .5), 1e-9)
        else:
            env.check_vec('diffraction', out['dir'].data[i], want['dir'].data[i])
            env.check_vec('polarization', out['polarization'].data[i],
                          want['polarization'].data[i])
            env.check_eq('order', out['order_L1'].data[i], m[k])
            env.check_eq('probability', out['probability'].data[i], p[k])
        env.check_eq('blaze', out['blaze_L1'].data[i], want['blaze'].data[i])
    ok = [env.and_(*[(g(u) <= f if b else g(u) >= f) for u, b in zip(us, bar)])
          for g in (lambda u: u, lambda u: 1 - u)]
    env.check('fraction of the bars', env.or_(*ok))
    env.check_vec('missed', out['dir'].data[1], before['dir'][1])
    env.check_eq('missed', out['probability'].data[1], 1)


@harness(timeout=60)
def frame(env):
    """absorption by the hexagonal frame: open area, less what is shadowed for inclined rays."""
    import math
    c = mod(env)
    fr = Frame(env, env.choice('rot', [0, 5]), zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    period = env.choice('period', [env.num(1) / 2, 4])
    f = env.real('f', env.num(1) / 50, env.num(49) / 50)
    depth = env.real('depth', 0, 2000)          # micron
    el = c.L2Abs(l2_dims={'period': q(env, period, 'mm'), 'barwidth': q(env, f * period, 'mm'),
                          'bardepth': q(env, depth, 'um')}, **fr.kwargs())
    ds = [env.arr([env.num(v) / 25 for v in d]) for d in
          env.choice('rays', [((-20, 15, 0), (-15, 12, 16)), ((-7, 0, 24), (-24, -7, 0)),
                              ((24, 0, -7), (-25, 0, 0))])]
    rows = [([0 - 5 * ds[0][0], y - 5 * ds[0][1], 2 - 5 * ds[0][2]], ds[0]),
            ((-3, 70, 1), (-1, 0, 0)),
            ([0 - 5 * ds[1][0], 1 - 5 * ds[1][1], 2 - 5 * ds[1][2]], ds[1])]
    ph = photons(env, fr, rows, [1, 2, 3])
    p0 = [env.real('p%d' % i, 0, 1) for i in range(2)] + [env.num(1) / 2]
    for i in range(3):
        ph['probability'][i] = p0[i]
    before = snapshot(ph)
    out = el(ph)
    for d, i in zip(ds, (0, 2)):
        sin = {0: 25, 7: 24, 15: 20, 20: 15, 24: 7, 25: 0}[round(25 * abs(float(d[0])))]
        inner = (1 - f) * period
        area = period * period / 2 * env.num(math.sqrt(3))
        v = (1 - f)**2 - depth / 1000 * inner * sin / 25 / area
        env.check_near('probability', out['probability'].data[i],
                       p0[i] * (v if v > 0 else env.num(0)), 1e-9)
        env.check_vec('same direction', out['dir'].data[i], before['dir'][i])
    env.check_eq('missed', out['probability'].data[1], p0[1])


@harness(timeout=60)
def quality(env):
    """efficiencies fall with the square of the order like exp(-(2 pi sigma m / d)**2)."""
    import astropy.units as u
    import math
    c = mod(env)
    fr = Frame(env, 0, zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    sig, unit = env.choice('sigma', [(1.75, 'um'), (0.003, 'mm')])
    el = c.QualityFactor(qualityfactor={'d': 200. * u.um, 'sigma': sig * getattr(u, unit)},
                         **fr.kwargs())
    ph = photons(env, fr, rays(env, fr, y), [1, 2, 3])
    m = env.choice('m', [(-7, 3), (0, 1), (2, -1)])
    p0 = [env.real('p%d' % i, 0, 1) for i in range(3)]
    ph['order'] = env.arr([env.num(m[0]), env.num(5), env.num(m[1])])
    for i in range(3):
        ph['probability'][i] = p0[i]
    out = el(ph)
    s = sig * (1 if unit == 'um' else 1000)
    for k, i in enumerate((0, 2)):
        env.check_near('probability', out['probability'].data[i],
                       p0[i] * env.num(math.exp(-(2 * math.pi * s / 200.)**2 * m[k]**2)), 1e-9)
    env.check_eq('missed', out['probability'].data[1], p0[1])


@harness(timeout=60)
def slit(env):
    """broadening by the openings of the frame: wavelength over size of the opening."""
    import math
    c = mod(env)
    fr = Frame(env, 0, zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    inner, period, bar = env.choice('size', [(0.866, (0.966, 'mm'), (0.1, 'mm')),
                                             (0.01, (0.0125, 'mm'), (2.5, 'um'))])
    el = c.L2Diffraction(l2_dims={'period': q(env, env.num(period[0]), period[1]),
                                  'barwidth': q(env, env.num(bar[0]), bar[1])}, **fr.kwargs())
    en = [1, 2, env.num(1) / 4]
    ph = photons(env, fr, rays(env, fr, y), en)
    out = el(ph)
    zs = env.draws('normal', 'randn', 'standard_normal')
    env.check('one number for each ray', len(zs) == 2)
    for k, i in enumerate((0, 2)):
        s = 1.22 * 0.4 * math.asin(float(e2w(env)) / float(en[i]) / inner)
        env.check_near('width', out['L2Diffraction'].data[i], zs[k] * env.num(s), 1e-9)
        env.check_near('turned by this angle',
                       env.dot(out['dir'].data[i],
                               fr.dir([env.num(x) / 7 for x in N[(0, 2)[k]]])),
                       env.cos(out['L2Diffraction'].data[i]), 1e-9)


@harness(timeout=90)
def tilted_bars(env):
    """the blaze angle changes with the distance from the centre across the bars."""
    c = mod(env)
    o = env.imp('marxs.optics.grating')
    fr = Frame(env, 5, zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    kind = env.choice('kind', ['both', 'centre', 'slope', 'none', 'turned'])
    ga = env.angle('groove', 0, env.num(3) / 2) if kind == 'turned' else env.num(0)
    kw = {}
    c0 = s = 0
    if kind in ('both', 'centre', 'turned'):
        c0 = kw['blaze_center'] = env.real('c', -1, 1)
    if kind in ('both', 'slope', 'turned'):
        s = kw['d_blaze_mm'] = env.real('s', -1, 1)
    rows = rays(env, fr, y)
    sel = [Sel(env, [1, -2], [1, env.num(1) / 2]) for i in range(2)]
    el = c.NonParallelCATGrating(d=env.num(1) / 1000, order_selector=sel[0], groove_angle=ga,
                                 **kw, **fr.kwargs())
    ref = o.CATGrating(d=env.num(1) / 1000, order_selector=sel[1], groove_angle=ga,
                       **fr.kwargs())
    en = [1, 2, 3]
    out = el(photons(env, fr, rows, en))
    want = ref(photons(env, fr, rows, en))
    ct, st = env.cos(ga), env.sin(ga)
    for k, (i, u) in enumerate([(0, (y, 2)), (2, (-1, env.num(5) / 2))]):
        b = want['blaze'].data[i] + c0 + s * (ct * u[0] + st * u[1])
        env.check_eq('selector', sel[0].seen[0][2][k], b)
        env.check_eq('record', out['blaze'].data[i], b)
        env.check_vec('direction does not depend on it', out['dir'].data[i],
                      want['dir'].data[i])


@harness(timeout=90)
def stack(env):
    """all parts of a grating in one element."""
    import math
    import astropy.units as u
    c = mod(env)
    fr = Frame(env, env.choice('rot', [0, 5]), zoom=(1, 40, 40))
    y = env.real('y', -3, 3)
    m, m1 = env.choice('m', [(2, -1), (-4, -1), (0, 3), (0, 0), (20, 0)])
    p, p1 = env.real('p', 0, 1), env.real('p1', 0, 1)
    ga = env.choice('groove', [0, 90]) if m in (2, 0) else 0
    given = m != 20
    kw = {}
    d, dl = env.num(0.0002), env.num(0.005)
    if given:
        d, dl = env.num(1) / 10**5, env.num(1) / 50000
        kw = {'d': d, 'l1_dims': {
            'period': q(env, dl, 'mm'), 'barwidth': q(env, dl / 4, 'mm'), 'bardepth': 2 * u.um},
            'l2_dims': {'period': 2 * u.mm, 'barwidth': .2 * u.mm, 'bardepth': .1 * u.mm},
            'qualityfactor': {'d': 100 * u.um, 'sigma': 2 * u.um}}
    # orders are displaced by multiples of 1/7
    wave = d * 2 / 7 if given else d / 35
    sel, sel1 = Sel(env, [m], [p]), Sel(env, [m1], [p1])
    angles = []

    def straight(self, photons, intersect, interpos, intercoos):
        angles.append(intersect.sum())
        return u.Quantity(env.arr([0] * int(intersect.sum())), u.rad)
    env.patch(c.L2Diffraction, 'scatter', straight)
    if ga:
        kw['groove_angle'] = env.PI / 2
    el = c.CATL1L2Stack(order_selector=sel, l1_order_selector=sel1, **kw, **fr.kwargs())
    rows = rays(env, fr, y, (1 if ga else 0, 2))[:2]
    en = [e2w(env) / wave, 2]
    ph = photons(env, fr, rows, en)
    before = snapshot(ph)
    out = el(ph)
    x, dy, dz = [env.num(v) / 7 for v in (N[0] if not ga else (-6, -3, 2))]
    prob = out['probability'].data[0]
    bar = env.same(out['order_L1'].data[0], 0) and m1 != 0
    k = m * wave / d
    k1 = 0 if bar else m1 * wave / dl
    # across the bars of the grating (a) and of the support (b)
    def turned(a, k):        # positive orders: away from the normal
        return a + k if a > 0 else a - k
    if ga:
        a, b = turned(dz, k), turned(-dy, k1)
        loc = [-b, a]
    else:
        a, b = turned(dy, k), turned(dz, k1)
        loc = [a, b]
    n = -env.sqrt(1 - a * a - b * b)
    d2 = fr.dir([n] + loc)
    for i in range(4):
        env.check_near('direction', out['dir'].data[0][i], d2[i], 1e-7)
    env.check('broadened', angles == [1])
    env.check_eq('order', out['order'].data[0], m)
    env.check_eq('order of the support', out['order_L1'].data[0], 0 if bar else m1)
    sig, dd = (2., 100.) if given else (1.75, 200.)
    inner, per, dep = (1.8, 2., .1) if given else (.8660254, .9622504, .5)
    want = p * env.num(math.exp(-(2 * math.pi * sig / dd)**2 * m**2))
    sin = env.sqrt(a * a + b * b)
    want = want * (env.num((inner / per)**2) -
                   sin * env.num(dep * inner / per**2 / math.sqrt(3) * 2))
    tr = transmission(env, float(en[0]), 2 if given else 4)
    if m1 == 0:
        env.check('probability', env.or_(*[env.and_(prob - w < 1e-7, w - prob < 1e-7)
                                           for w in (want * p1, want * tr)]))
    else:
        env.check_near('probability', prob, want * (tr if bar else p1), 1e-7)
    env.check_vec('place', out['pos'].data[0][:3], fr.pos([0, y, 2])[:3])
    env.check_vec('missed', out['dir'].data[1], before['dir'][1])
    env.check_eq('missed', out['probability'].data[1], 1)


@harness(timeout=40)
def bars(env):
    """rays that missed all facets are absorbed; without facets all are."""
    c = mod(env)
    ids = env.choice('ids', [None, [0, -1, 7], [-1, -1, -1], [3, 4, 0]])
    p0 = [env.real('p%d' % i, 0, 1) for i in range(3)]
    ph = env.photons(3, env.arr([[0, 0, 0, 1]] * 3), env.arr([[-1, 0, 0, 0]] * 3),
                     env.arr([1] * 3), env.arr([[0, 1, 0, 0]] * 3), env.arr([1] * 3))
    for i in range(3):
        ph['probability'][i] = p0[i]
    if ids is not None:
        ph['facet'] = ids
    out = c.catsupportbars(ph)
    for i in range(3):
        env.check_eq('probability', out['probability'].data[i],
                     p0[i] if ids is not None and ids[i] >= 0 else 0)


@harness(timeout=40)
def sizes(env):
    """bars must be thinner than their period."""
    import astropy.units as u
    c = mod(env)
    cls = env.choice('class', ['L1', 'L2Abs', 'L2Diffraction'])
    per, bar = env.real('period', 1, 10), env.real('bar', 0, 20)
    env.assume(env.or_(bar < per - env.num(1) / 1000, bar > per + env.num(1) / 1000, bar == per))
    unit = env.choice('unit', ['mm', 'um'])
    dims = {'period': q(env, per, unit), 'bardepth': 1 * u.um,
            'barwidth': q(env, bar if unit == 'um' else 1000 * bar, 'um')}
    kw = {'order_selector': Sel(env, [1], [1])} if cls == 'L1' else {}
    name = {'L1': 'l1_dims'}.get(cls, 'l2_dims')
    bad = env.raises(ValueError, lambda: getattr(c, cls)(**{name: dims}, **kw))
    env.check('refused', bar >= per if bad else bar < per)


@harness(timeout=40)
def grooves(env):
    """the fine support is perpendicular to the bars of the grating, for any angle of them."""
    c = mod(env)
    fr = Frame(env, 5)
    ga = env.angle('groove', -env.num(3) / 2, env.num(3) / 2)
    el = c.CATL1L2Stack(order_selector=Sel(env, [1], [1]), groove_angle=ga, **fr.kwargs())
    coos = env.arr([[1, 2]])
    g = {e.order_name: e.e_groove_coos(coos)[0][0] for e in el.elements
         if hasattr(e, 'order_name')}
    env.check('two gratings', sorted(g) == ['order', 'order_L1'])
    ct, st = env.cos(ga), env.sin(ga)
    env.check_vec('bars', list(g['order'])[:3], fr.dir([0, -st, ct])[:3])
    env.check_eq('perpendicular', env.dot(g['order'], g['order_L1']), 0)
