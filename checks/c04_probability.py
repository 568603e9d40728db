"""Photon probabilities stay in [0, 1] and only ever shrink."""
from symx.worker import registry
from .elements import ELEMENTS, Frame, snapshot, DATA, selector
from .c05_missed import photon_list, miss_row

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Initial probabilities are arbitrary in [0, 1], energies in [0.25, 8] keV; filter and '
    'efficiency curves are arbitrary functions; placements are fixed rational ones.',
    'NaN efficiencies are outside of the claim.',
]


def hit_rows(env, fr):
    """Photon 0 and 2 hit (one at a symbolic place), photon 1 misses."""
    a = env.real('a', -1, 1)
    n = env.num
    d = (n(-6) / 7, n(2) / 7, n(3) / 7)
    return [((6, a - 2, a - 3), d), miss_row(0), ((12, -4, n(-9) / 2), d)]


def run(env, name, fr=None):
    fr = fr or Frame(env, 5)
    rows = hit_rows(env, fr)
    el = ELEMENTS[name](env, fr.kwargs())
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    out = el(ph)
    return el, before, out


def _range(name):
    def f(env):
        el, before, out = run(env, name)
        for i in range(3):
            w0, w1 = before['probability'][i], out['probability'].data[i]
            env.check_le('photon %d: probability does not grow' % i, w1, w0)
            env.check_le('photon %d: probability is not negative' % i, 0, w1)
        if name != 'baffle':
            env.check_eq('photon 1 misses: probability kept', out['probability'].data[1],
                         before['probability'][1])
    f.__name__ = 'range_' + name
    f.__doc__ = '%s: 2 photons hit, 1 misses; symbolic probability, energy, position.' % name
    return f


for _n in sorted(ELEMENTS):
    if _n not in ('radial', 'random'):
        harness(timeout=80, max_paths=500)(_range(_n))


@harness(timeout=60)
def factor_filter(env):
    """filter and stack: probability is multiplied with the filter curve at the photon energy."""
    for name in ('filter', 'filter_id', 'stack'):
        fr = Frame(env, 5)
        rows = [((6, -2, -3), (env.num(-6) / 7, env.num(2) / 7, env.num(3) / 7)), miss_row(0),
                ((12, -4, -5), (env.num(-6) / 7, env.num(2) / 7, env.num(3) / 7))]
        f = env.func('eff_' + name, 0, 1)
        o = env.imp('marxs.optics.filter')
        det = env.imp('marxs.optics.detector')
        base = env.imp('marxs.optics.base')
        if name == 'stack':
            g = env.func('second', 0, 1)
            el = base.FlatStack(elements=[o.EnergyFilter, det.FlatDetector, o.EnergyFilter],
                                keywords=[{'filterfunc': f}, {'pixsize': 1}, {'filterfunc': g}],
                                **fr.kwargs())
        else:
            g = None
            el = o.EnergyFilter(filterfunc=f, **fr.kwargs())
        ph = photon_list(env, fr, rows)
        before = snapshot(ph)
        out = el(ph)
        for i in (0, 2):
            e = before['energy'][i]
            want = before['probability'][i] * f(e) * (g(e) if g else 1)
            env.check_eq('%s photon %d' % (name, i), out['probability'].data[i], want)


@harness(timeout=60)
def factor_lens(env):
    """lens: square of the single-reflection probability at a quarter of the deflection angle."""
    o = env.imp('marxs.optics.mirror')
    fr = Frame(env, 5)
    f = env.func('refl', 0, 1)
    seen = []

    def refl(e, a, grid):
        seen.append(a)
        return f(e, a)
    el = o.PerfectLens(focallength=20, reflectivity_interpolator=refl, **fr.kwargs())
    rows = hit_rows(env, fr)
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    out = el(ph)
    for k, i in enumerate((0, 2)):
        a = seen[0][k]
        v = f(before['energy'][i], a)
        env.check_eq('photon %d: squared reflectivity' % i, out['probability'].data[i],
                     before['probability'][i] * v * v)
        cosdef = env.dot(before['dir'][i][:3], out['dir'].data[i][:3])
        env.check_eq('photon %d: argument is deflection / 4' % i, env.cos(4 * a), cosdef)
        env.check_le('photon %d: angle is positive' % i, 0, a)


@harness(timeout=60)
def factor_grating(env):
    """gratings: probability is multiplied with the summed probability of all orders."""
    o = env.imp('marxs.optics.grating')
    cls = env.choice('class', ['FlatGrating', 'CATGrating'])
    q = env.num(1) / 8
    p0, p1 = env.choice('p', [(q, 2 * q), (0 * q, q), (4 * q, 4 * q)])
    fr = Frame(env, 5)
    el = getattr(o, cls)(d=env.num(0.0005), order_selector=o.OrderSelector(
        [0, 1], p=env.arr([p0, p1])), **fr.kwargs())
    rows = hit_rows(env, fr)
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    out = el(ph)
    for i in (0, 2):
        env.check_eq('photon %d' % i, out['probability'].data[i],
                     before['probability'][i] * (p0 + p1))


@harness(timeout=60)
def factor_brewster(env):
    """Brewster mirror: squared component of the polarization perpendicular to the incidence plane."""
    fr = Frame(env, 5)
    o = env.imp('marxs.optics.multiLayerMirror')
    el = o.FlatBrewsterMirror(**fr.kwargs())
    rows = hit_rows(env, fr)
    ph = photon_list(env, fr, rows)
    # symbolic polarization, perpendicular to the ray
    psi = env.angle('psi', -4, 4)
    for i in (0, 2):
        d = env.arr(list(rows[i][1]))
        e1 = env.cross(d, env.arr([0, 3, -2])) / env.sqrt(13)
        e2 = env.arr([0, env.num(3), env.num(-2)]) / env.sqrt(13)
        ph['polarization'][i] = fr.dir(env.cos(psi) * e1 + env.sin(psi) * e2)
    before = snapshot(ph)
    out = el(ph)
    s = env.sin(psi)
    for i in (0, 2):
        env.check_eq('photon %d' % i, out['probability'].data[i],
                     before['probability'][i] * s * s)


@harness(timeout=60)
def factor_multilayer(env):
    """multilayer efficiency: Gaussian in wavelength at the local position, from the tables."""
    fr = Frame(env, 5)
    import os
    o = env.imp('marxs.optics.multiLayerMirror')
    el = o.MultiLayerEfficiency(reflFile=os.path.join(DATA, 'refl.txt'),
                                testedPolarization=os.path.join(DATA, 'pol.txt'),
                                **fr.kwargs())
    y = env.real('y', -1.9, 1.9)
    n = env.num
    rows = [((5, y, 1), (-1, 0, 0)), miss_row(0)]
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    out = el(ph)
    E = before['energy'][0]
    x = y / 2 + 1          # table position X / half width, table: X/2 - 1 = local/2

    def piece(v, xs, ys):
        if v <= xs[0]:
            return n(ys[0])
        for k in range(len(xs) - 1):
            if v <= xs[k + 1]:
                return ys[k] + (v - xs[k]) * ((n(ys[k + 1]) - ys[k]) / (n(xs[k + 1]) - xs[k]))
        return n(ys[-1])
    xs = [0, 1, 2]
    peak = piece(x, xs, [2, 4, 6])
    amp = piece(x, xs, [5, 6, n(1) / 2])
    fwhm = piece(x, xs, [n(1) / 2, n(1) / 4, n(3) / 4])
    pol = piece(E, [n(0.1), n(0.5), 1], [n(0.9), n(0.8), n(0.6)])
    lam = n(1.23984282) / E
    got = out['probability'].data[0]
    # the exponential itself: evaluate where it is exactly one, bound elsewhere
    env.check_le('never above the peak reflectivity', got,
                 before['probability'][0] * amp / pol / 100)
    if lam == peak:
        env.check_eq('peak reflectivity at the peak wavelength', got,
                     before['probability'][0] * amp / pol / 100)
    log2 = n(0.6931471805599453)
    arg = -(lam - peak) * (lam - peak) / (2 * (fwhm * fwhm / (8 * log2)))
    env.check_eq('Gaussian profile', got,
                 before['probability'][0] * amp / pol / 100 * env.exp(arg), tol=1e-5)


@harness(timeout=60)
def out_of_range_filter(env):
    """a filter curve that leaves [0, 1] for a photon that hits is refused, others are not."""
    o = env.imp('marxs.optics.filter')
    kind = env.choice('kind', ['EnergyFilter', 'GlobalEnergyFilter'])
    f = env.func('eff', -2, 3)
    fr = Frame(env, 5)
    ph = photon_list(env, fr, hit_rows(env, fr))
    kw = fr.kwargs() if kind == 'EnergyFilter' else {}
    el = getattr(o, kind)(filterfunc=f, **kw)
    e = ph['energy'].data.copy()
    bad = env.raises(ValueError, lambda: el(ph))
    idx = (0, 2) if kind == 'EnergyFilter' else (0, 1, 2)
    outside = [env.or_(f(e[i]) < 0, f(e[i]) > 1) for i in idx]
    if bad:
        env.check('refused: some value is outside', env.or_(*outside))
    else:
        env.check('accepted: all values are inside', env.not_(env.or_(*outside)))


@harness(timeout=60)
def out_of_range_any(env):
    """any element that produces a probability factor outside of [0, 1] is refused."""
    base = env.imp('marxs.optics.base')
    v = [env.real('v%d' % k, -2, 3) for k in range(2)]
    vectorized = env.bool('vectorized')

    if vectorized:
        class E(base.FlatOpticalElement):
            def specific_process_photons(self, photons, intersect, interpos, intercoos):
                return {'probability': env.arr(v)}
    else:
        calls = []

        class E(base.FlatOpticalElement):
            def process_photon(self, dir, pos, energy, polarization):
                calls.append(1)
                return dir, pos, energy, polarization, v[len(calls) - 1]
    fr = Frame(env, 5)
    rows = [((5, 1, 1), (-1, 0, 0)), miss_row(0), ((5, -1, 1), (-1, 0, 0))]
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    el = E(**fr.kwargs())
    bad = env.raises(ValueError, lambda: el(ph))
    outside = env.or_(v[0] < 0, v[0] > 1, v[1] < 0, v[1] > 1)
    if bad:
        env.check('refused: some value is outside', outside)
    else:
        env.check('accepted: all values are inside', env.not_(outside))
        for k, i in enumerate((0, 2)):
            env.check_eq('photon %d: multiplied' % i, ph['probability'].data[i],
                         before['probability'][i] * v[k])
        env.check_eq('photon 1: kept', ph['probability'].data[1], before['probability'][1])


@harness(timeout=60)
def chain(env):
    """three elements in sequence: the factors multiply."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics.filter')
    fr = Frame(env, 5)
    fs = [env.func('f%d' % k, 0, 1) for k in range(3)]
    kw = [fr.kwargs() for k in range(3)]
    n = env.num
    d = (-1, 0, 0)
    for k in range(3):
        c = fr.c + env.matmul(fr.R, env.arr([-k, 0, 0]))
        kw[k]['position'] = c
    seq = sim.Sequence(elements=[o.EnergyFilter(filterfunc=fs[k], **kw[k]) for k in range(3)])
    ph = photon_list(env, fr, [((5, 1, 1), d), miss_row(0)])
    before = snapshot(ph)
    out = seq(ph)
    e = before['energy'][0]
    env.check_eq('product of all factors', out['probability'].data[0],
                 before['probability'][0] * fs[0](e) * fs[1](e) * fs[2](e))
    env.check_eq('missed all', out['probability'].data[1], before['probability'][1])
