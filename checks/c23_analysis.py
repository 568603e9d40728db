"""Analysis: selections of photons, resolving power, effective area, best focus, facets."""
import types

from symx.worker import registry

HARNESSES, harness = registry()
NEEDS = ['marxs.analysis.analysis', 'marxs.analysis.gratings', 'marxs.analysis.coords']
ASSUMPTIONS = [
    'The sigma-clipped statistics of astropy are an arbitrary function of the numbers they are '
    'given (positive width); the minimizer of scipy is replaced by one that tries any places.',
    'Lists of up to 48 photons with symbolic positions and probabilities; orders are concrete.',
    'A worst case of lists of which some have too few photons is outside of the claim.',
    'Limits of sub-apertures are excluded by 1e-3 rad.',
]
F2 = 2.3548


class Stats:
    """sigma_clipped_stats: some mean, median and width for each set of numbers."""

    def __init__(self, env):
        self.env = env
        self.seen = []

    def __call__(self, data, **kw):
        env = self.env
        v = [x for x in env.np.asarray(getattr(data, 'value', data)).reshape(-1)]
        for w, r in self.seen:
            if len(v) == len(w) and all(env.same(a, b) for a, b in zip(v, w)):
                return r
        k = len(self.seen)
        r = (env.real('mean%d' % k, -50, 50), env.real('med%d' % k, -50, 50),
             env.positive('std%d' % k, 10))
        self.seen.append((v, r))
        return r


def table(env, orders, **cols):
    from astropy.table import Table
    import numpy as np
    t = Table()
    t['order'] = np.array(orders)
    for k, v in cols.items():
        t[k] = env.arr(v)
    return t


def res(env, st, zero, vals):
    m, _, s = st(env.arr(vals))
    z = m - zero
    return m, s, (z if z >= 0 else -z) / (s * env.num(F2))


def isnan(x):
    return isinstance(x, float) and x != x


def check_num(env, name, a, b):
    """equal numbers, both NaN, or both masked"""
    import numpy as np
    if isinstance(a, np.generic):
        a = a.item()
    if isnan(b):
        env.check(name, isnan(a))
    else:
        env.check(name + ': is a number', not isnan(a))
        if not isnan(a):
            env.check_near(name, a, b, 1e-9) if not env.symbolic else env.check_eq(name, a, b)


@harness(timeout=60, max_paths=900)
def subaperture(env):
    """photons in two mirrored sectors, for any angle and centre, and any turns."""
    g = env.imp('marxs.analysis.gratings')
    pi = env.PI
    A = env.real('A', 0, 4)
    env.assume(A < pi)
    sign, turn = env.choice('centre', [(1, 0), (-1, 1), (-1, 0), (1, -1)])
    b = env.real('b', -4, 4)
    env.assume(b <= pi)
    env.assume(-pi <= b)
    m = env.real('m', env.num(1) / 100, 3)
    k = env.choice('turns', [-1, 0, 2])
    deflt = env.choice('default', [False, True])
    if deflt:
        A, args = pi / 2, ()
    else:
        args = (sign * A + 2 * pi * turn,)
    got = g.identify_photon_in_subaperture(env.arr([b + 2 * pi * k]), m, *args)

    def dist(x, y):
        d = x - y if x >= y else y - x
        return d if d <= pi else 2 * pi - d
    d1, d2 = dist(b, A), dist(b, -A)
    d = d1 if d1 <= d2 else d2
    eps = env.num(1) / 1000
    env.assume(env.or_(d <= m - eps, d >= m + eps))
    env.check('in sectors', bool(got[0]) == bool(d <= m))


@harness(timeout=60)
def averages(env):
    """areas are added, resolving powers averaged with areas as weights, without NaN."""
    import numpy as np
    g = env.imp('marxs.analysis.gratings')
    a = [[env.real('a%d%d' % (i, j), env.num(1) / 10, 50) for j in range(3)] for i in range(2)]
    r = [[env.real('r%d%d' % (i, j), 0, 5000) for j in range(3)] for i in range(2)]
    kind = env.choice('kind', ['plain', 'nan', 'column'])
    ok = [[True] * 3 for i in range(2)]
    if kind == 'nan':
        ok[0][1] = ok[1][1] = ok[1][2] = False
    elif kind == 'column':
        ok[0][1] = ok[1][1] = False
    rr = [[r[i][j] if ok[i][j] else float('nan') for j in range(3)] for i in range(2)]
    axis = env.choice('axis', [None, 0, 1, 'flat'])
    if axis == 'flat':
        R, A = g.average_R_Aeff(env.arr(rr[1]), env.arr(a[1]))
        sets, R, A = [[(1, j) for j in range(3)]], [R], [A]
    else:
        R, A = g.average_R_Aeff(env.arr(rr), env.arr(a), axis)
        if axis is None:
            sets, R, A = [[(i, j) for i in range(2) for j in range(3)]], [R], [A]
        elif axis == 0:
            sets = [[(i, j) for i in range(2)] for j in range(3)]
        else:
            sets = [[(i, j) for j in range(3)] for i in range(2)]
    env.check('numbers', len(R) == len(sets) and len(A) == len(sets))
    for s, x, y in zip(sets, R, A):
        env.check_eq('area', y, sum((a[i][j] for i, j in s), env.num(0)))
        use = [(i, j) for i, j in s if ok[i][j]]
        w = sum((a[i][j] for i, j in use), env.num(0))
        if use:
            env.check_eq('resolving power', x * w,
                         sum((a[i][j] * r[i][j] for i, j in use), env.num(0)))
        else:
            env.check('nothing to average', x is np.ma.masked)


def photons(env, counts, name='x'):
    """list of photons, counts: order -> number"""
    o = []
    m = max(counts.values())
    for i in range(m):
        o += [k for k in counts if counts[k] > i]
    x = [env.real('%s%d' % (name, i), -100, 100) for i in range(len(o))]
    return o, x


@harness(timeout=60)
def resolving(env):
    """resolving power from a list: statistics of the photons of each order only, position
    relative to the zeroth order; too few photons give NaN."""
    g = env.imp('marxs.analysis.gratings')
    st = Stats(env)
    env.patch(g, 'sigma_clipped_stats', st)
    counts = env.choice('counts', [{0: 22, 1: 21, -2: 3}, {0: 20, 3: 20}, {1: 22, -1: 23, 0: 3}])
    o, x = photons(env, counts)
    given = env.choice('zero', [True, False])
    col, oc = env.choice('names', [(None, None), ('u', 'm')])
    t = table(env, o, **{col or 'proj_x': x, 'other': [7] * len(o)})
    kw = {}
    if oc:
        t.rename_column('order', oc)
        kw = {'col': col, 'ordercol': oc}
    orders = [1, 5, -2, 0, 3]
    zero = None
    if given:
        zero = env.real('zero', -10, 10)
        kw['zeropos'] = zero
    elif counts[0] < 20:
        env.check('no zeroth order', env.raises(
            g.AnalysisError, lambda: g.resolvingpower_from_photonlist(t, orders, **kw)))
        return
    got = g.resolvingpower_from_photonlist(t, env.np.array(orders), **kw)
    env.check('three results', len(got) == 3 and all(len(v) == 5 for v in got))
    if not given:
        zero = st(env.arr([v for v, k in zip(x, o) if k == 0]))[0]
    for i, m in enumerate(orders):
        if counts.get(m, 0) < 20:
            for v in got:
                check_num(env, 'too few photons', v[i], float('nan'))
            continue
        mean, std, r = res(env, st, zero, [v for v, k in zip(x, o) if k == m])
        check_num(env, 'resolving power', got[0][i], r)
        check_num(env, 'position', got[1][i], mean)
        check_num(env, 'width', got[2][i], std)


@harness(timeout=60)
def robust(env):
    """the worst of several lists is reported, with its position and width."""
    g = env.imp('marxs.analysis.gratings')
    n = env.choice('n', [1, 2, 3])
    orders = [1, -3]
    tabs = [object() for i in range(n)]
    cols = ['c%d' % i for i in range(n)]
    zeros = [env.real('z%d' % i) for i in range(n)]
    R, P, S = [[[env.real('%s%d%d' % (c, i, j), 0, 100) for j in range(2)] for i in range(n)]
               for c in 'rps']

    def one(ph, o, col='proj_x', zeropos=None, ordercol='order'):
        i = [k for k in range(n) if tabs[k] is ph][0]
        env.check('arguments', col == cols[i] and env.same(zeropos, zeros[i]) and ordercol == 'm'
                  and list(o) == orders)
        return env.arr(R[i]), env.arr(P[i]), env.arr(S[i])
    env.patch(g, 'resolvingpower_from_photonlist', one)
    got = g.resolvingpower_from_photonlist_robust(tabs, env.np.array(orders), cols, zeros,
                                                  ordercol='m')
    for j in range(2):
        for i in range(n):
            env.check_le('worst', got[0][j], R[i][j])
        k = [i for i in range(n) if env.same(got[0][j], R[i][j]) and
             env.same(got[1][j], P[i][j]) and env.same(got[2][j], S[i][j])]
        env.check('from one list', len(k) > 0)
    env.check('lengths', env.raises(ValueError, lambda: g.resolvingpower_from_photonlist_robust(
        tabs + [1], orders, cols, zeros)) and env.raises(
        ValueError, lambda: g.resolvingpower_from_photonlist_robust(
            tabs, orders, cols, zeros[1:])))


@harness(timeout=60)
def areas(env):
    """effective area and detected fraction: sum of the probabilities of an order."""
    import astropy.units as u
    g, an = env.imp('marxs.analysis.gratings'), env.imp('marxs.analysis.analysis')
    n = 5
    o = env.choice('orders', [[1, 0, -1, 1, 0], [2, 2, 2, 2, 2], [-3, -2, -1, 0, 1]])
    p = [env.real('p%d' % i, 0, 1) for i in range(n)]
    col = env.choice('col', ['order', 'CCD'])
    t = table(env, o, probability=p)
    if col != 'order':
        t.rename_column('order', col)
    total = env.choice('total', [5, 40])
    want = [-1, 0, 7, 1, 2]
    s = [sum((x for x, k in zip(p, o) if k == m), env.num(0)) for m in want]
    A = env.positive('A', 1000)
    unit = env.choice('unit', [True, False])
    kw = {} if col == 'order' else {'ordercol': col}
    a = g.effectivearea_from_photonlist(
        t, env.np.array(want), total,
        u.Quantity(env.arr([A]), u.cm ** 2)[0] if unit else A, **kw)
    d = g.effectivearea_from_photonlist(t, want, total, **kw)
    f = an.detected_fraction(t, env.np.array(want), **({} if col == 'order' else {'col': col}))
    for i in range(len(want)):
        v = u.Quantity(a)[i].to(u.cm ** 2).value if unit else a[i]
        env.check_eq('effective area', v * total, A * s[i])
        env.check_eq('area of 1 cm^2', u.Quantity(d)[i].to(u.cm ** 2).value * total, s[i])
        env.check_eq('fraction', f[i] * n, s[i])


@harness(timeout=80)
def capture(env):
    """all results for one simulation: filters for area and resolving power, orders together
    and separately."""
    import numpy as np
    g = env.imp('marxs.analysis.gratings')
    st = Stats(env)
    env.patch(g, 'sigma_clipped_stats', st)
    counts = env.choice('counts', [{0: 23, 1: 22, -2: 23, 4: 2}, {0: 3, 1: 22}])
    o, x = photons(env, counts, 'y')
    n = len(o)
    p = [env.num(0) if i == 1 else env.real('p%d' % i, env.num(1) / 100, 1) for i in range(n)]
    gaps = env.choice('gaps', [False, True])
    bad = env.choice('bad', ['none', 'nan', 'mask'])
    if bad == 'nan':
        x = list(x)
        x[2] = x[4] = float('nan')
    ccd = [-1 if i % 7 == 3 else i % 3 for i in range(n)]
    t = table(env, o, det_x=x, probability=p)
    t['CCD_ID'] = np.array(ccd)
    if bad == 'mask':
        t['det_x'] = np.ma.MaskedArray(env.arr(x), mask=[i in (2, 4) for i in range(n)])
    A = env.positive('A', 1000)
    zero = env.choice('zero', [None, 3])
    orders = [-2, -1, 0, 1, 4]
    unit = not gaps and zero is None
    import astropy.units as u
    kw = {'A_geom': u.Quantity(env.arr([A]), u.cm ** 2)[0] if unit else A, 'orders': orders, 'zeropos': zero}
    c = g.CaptureResAeff_CCDgaps(**kw) if gaps else g.CaptureResAeff(**kw)
    total = 200 if gaps and zero is None else None
    r = c(t, **({} if total is None else {'n_photons': total}))
    total = total or n
    if unit:
        r = dict(r)
        for k in ('Aeff', 'Aeffgrat', 'Aeff0'):
            r[k] = r[k].to(u.cm ** 2).value
        for k in ('R', 'Rgrat'):
            env.check('resolving power has no unit',
                      u.Quantity(1, getattr(r[k], 'unit', None)).unit == u.one)
            r[k] = getattr(r[k], 'value', r[k])
    env.check('names', set(r) == {'Aeff0', 'Aeffgrat', 'Aeff', 'Rgrat', 'R'})
    area = [sum((p[i] for i in range(n) if o[i] == m and not (gaps and ccd[i] < 0)), env.num(0))
            for m in orders]
    for i in range(5):
        env.check_eq('area', r['Aeff'][i] * total, A * area[i])
    env.check_eq('zeroth order', r['Aeff0'] * total, A * area[2])
    env.check_eq('all dispersed orders', r['Aeffgrat'] * total,
                 A * sum((area[i] for i in (0, 1, 3, 4)), env.num(0)))
    sel = {m: [x[i] for i in range(n) if o[i] == m and i != 1 and
               not (bad != 'none' and i in (2, 4))] for m in orders}
    if zero is None and len(sel[0]) < 20:
        for i in range(5):
            check_num(env, 'no zeroth order', r['R'][i], float('nan'))
        env.check('no average', r['Rgrat'] is np.ma.masked)
        return
    z = st(env.arr(sel[0]))[0] if zero is None else zero
    num, den = env.num(0), env.num(0)
    for i, m in enumerate(orders):
        if len(sel[m]) < 20:
            check_num(env, 'too few photons', r['R'][i], float('nan'))
            continue
        R = res(env, st, z, sel[m])[2]
        check_num(env, 'resolving power', r['R'][i], R)
        if m != 0:
            num = num + area[i] * R
            den = den + area[i]
    env.check_eq('average resolving power', r['Rgrat'] * den, num)


@harness(timeout=60)
def focus(env):
    """best focus: detectors at any distance along their normal; width of the distribution."""
    import math
    an = env.imp('marxs.analysis.analysis')
    rot = env.rot(env.choice('rot', [0, 7]))
    n = env.num
    pos = [env.matmul(rot, env.arr([9 + i, env.real('y', -9, 9) if i == 0 else 3 - i,
                                         env.real('z', -9, 9) if i == 1 else i]))
           for i in range(3)]
    dirs = [(n(-6) / 7, n(2) / 7, n(3) / 7), (-1, 0, 0), (n(-2) / 3, n(-1) / 3, n(2) / 3)]
    dirs = [env.matmul(rot, env.arr(d)) for d in dirs]
    ph = env.photons(3, [list(p) + [1] for p in pos], [list(d) + [0] for d in dirs],
                     pol=[[0, 1, 0, 0]] * 3)
    q = env.choice('q', [[0, 2, -5], [1]])
    st = Stats(env)
    env.patch(an, 'sigma_clipped_stats', lambda d, **kw: st(d))
    tried = {}
    kws = {}

    def minimize_scalar(fun, args=(), **kw):
        kws.update(kw)
        for v in q:
            tried[v] = fun(v, *args)
        return types.SimpleNamespace(x=q[-1])
    env.patch(an.scipy.optimize, 'minimize_scalar', minimize_scalar)
    kind = env.choice('kind', ['default', 'det_y', 'mean'])
    obj = {'default': {}, 'det_y': {'objective_func_args': {'colname': 'det_y'}},
           'mean': {'objective_func': an.mean_width_2d, 'objective_func_args': {}}}[kind]
    opt = an.find_best_detector_position(ph, orientation=rot, bounds=(1, 2), **obj)
    env.check('result', opt.x == q[-1] and kws == {'bounds': (1, 2)})
    for v in q:
        y, z = [], []
        for p, d in zip(pos, dirs):
            lp, ld = env.matmul(rot.T, p), env.matmul(rot.T, d)
            s = (v - lp[0]) / ld[0]
            y.append(lp[1] + s * ld[1])
            z.append(lp[2] + s * ld[2])
        if kind == 'mean':
            my, mz = sum(y, n(0)) / 3, sum(z, n(0)) / 3
            w = sum((env.sqrt((a - my) ** 2 + (b - mz) ** 2) for a, b in zip(y, z)), n(0)) / 3
        elif env.symbolic:
            w = st(env.arr(z if kind == 'det_y' else y))[2]
        else:
            continue
        env.check_near('width', tried[v], w, 1e-6)
    for i in range(3):
        env.check_vec('photons are kept', ph['pos'].data[i][:3], pos[i])


@harness(timeout=60, max_paths=900)
def per_order(env):
    """every order in turn with the same photons; those that are lost do not count."""
    import numpy as np
    g, opt = env.imp('marxs.analysis.gratings'), env.imp('marxs.optics')
    st = Stats(env)
    env.patch(g, 'sigma_clipped_stats', st)
    n = 4
    orders = env.choice('orders', [[0, 2], [-3, 1, 5]])
    x = [env.real('x%d' % i, -10, 10) for i in range(n)]
    p = [env.real('p%d' % i, env.num(1) / 10, 1) for i in range(n)]
    lost, slip = env.choice('lost', [(None, None), (1, 3), (3, None)])
    if lost is not None:
        p[lost] = env.num(0)
    t = table(env, [9] * n, x=x, probability=p)
    kind = env.choice('detector', ['given', 'none'])
    used = []

    class Elem:
        order_selector = None

    class Gratings:
        elem_args = {}
        elements = [Elem(), Elem()]

        def __call__(self, ph):
            s = self.elements[0].order_selector
            env.check('selector', all(e.order_selector is s for e in self.elements)
                      and self.elem_args['order_selector'] is s)
            o, pr = s(env.arr([1] * n))
            if slip is not None:
                o = [k if i != slip else 77 for i, k in enumerate(o)]
            ph['order'] = np.array([int(k) for k in o])
            ph['x'] = ph['x'] + ph['order'] * 10
            ph['probability'] = ph['probability'] * pr
            return ph

    def det(ph):
        used.append(len(ph))
        ph['u'] = 2 * ph['x']
        ph['det_x'] = 3 * ph['x']
        return ph
    best = []

    def find(ph, objective_func=None, **kw):
        v = [a for a in ph['x']]
        best.append((v, objective_func))
        return types.SimpleNamespace(x=len(best))
    env.patch(g, 'find_best_detector_position', find)

    class Flat:
        def __init__(self, position, zoom):
            env.check('place of detector', list(position) == [len(best), 0, 0])

        def __call__(self, ph):
            return det(ph)
    env.patch(g, 'FlatDetector', Flat)
    r, w, info = g.resolvingpower_per_order(
        Gratings(), t, np.array(orders), **({'detector': det, 'colname': 'u'}
                                            if kind == 'given' else {}))
    live = [i for i in range(n) if i != lost]
    f = 2 if kind == 'given' else 3
    zero = st(env.arr([f * x[i] for i in live]))[0] if kind == 'given' else 0
    for k, m in enumerate(orders):
        v = [x[i] + 10 * m for i in live if i != slip]
        mean, std, R = res(env, st, zero, [f * a for a in v])
        env.check_eq('FWHM', w[k], env.num(F2) * std)
        env.check_eq('resolving power', r[k], R)
        if kind == 'none':
            env.check('photons for focus', len(best[k][0]) == len(v) and all(
                env.same(a, b) for a, b in zip(best[k][0], v)))
    for i in range(n):
        env.check_eq('photons are kept', t['x'][i], x[i])
    env.check('photons are kept', list(t['order']) == [9] * n)


@harness(timeout=60)
def weighted(env):
    """average over orders with the efficiency of each order at the energy as weight."""
    g = env.imp('marxs.analysis.gratings')
    en = env.choice('energies', [[1, 2, 4], [4, 2, 1]])
    orders = [-1, 0, 3]
    pr = [[env.real('p%d%d' % (i, j), env.num(1) / 100, 1) for j in range(3)] for i in range(3)]
    eff = types.SimpleNamespace(orders=env.np.array(orders), energy=env.np.array(en) * 1.,
                                prob=env.arr(pr))
    want = env.choice('orders', [[3, -1], [0]])
    at = [env.num(3) / 2, 4, env.num(1) / 2]
    data = [[env.real('d%d%d' % (i, j), 0, 100) for j in range(3)] for i in range(len(want))]
    got = g.weighted_per_order(env.arr(data), want, env.arr(at), eff)
    k = {e: i for i, e in enumerate(en)}
    for j in range(3):
        num, den = env.num(0), env.num(0)
        for i, m in enumerate(want):
            c = orders.index(m)
            w = [(pr[k[1]][c] + pr[k[2]][c]) / 2, pr[k[4]][c], pr[k[1]][c]][j]
            num, den = num + w * data[i][j], den + w
        env.check_eq('average', got[j] * den, num)
    env.check('errors', env.raises(ValueError, lambda: g.weighted_per_order(
        env.arr(data), want + [0], env.arr(at), eff)) and env.raises(
        ValueError, lambda: g.weighted_per_order(env.arr(data), want, env.arr(at[1:]), eff))
        and env.raises(KeyError, lambda: g.weighted_per_order(
            env.arr(data), [8] * len(want), env.arr(at), eff)))


@harness(timeout=60)
def project(env):
    """projection along the normal of any plane; nothing else changes."""
    c = env.imp('marxs.analysis.coords')
    rot = env.rot(env.choice('rot', [0, 3, 5, 7]))
    ctr, p = env.vec('c'), env.vec('p')
    w = env.choice('weight', [1, 3])
    z = env.choice('zoom', [1, [2, 3, 5]])
    el = c.ProjectOntoPlane(position=ctr, orientation=rot, zoom=z)
    ph = env.photons(1, [[v * w for v in p] + [w]], [[1, 0, 0, 0]], prob=[env.real('pr', 0, 1)])
    before = ph.copy()
    out = el(ph)
    l = env.matmul(rot.T, p - ctr)
    env.check_eq('y', out['proj_x'][0], l[1])
    env.check_eq('z', out['proj_y'][0], l[2])
    for k in before.colnames:
        env.check_vec(k, env.np.asarray(out[k].data).reshape(-1),
                      env.np.asarray(before[k].data).reshape(-1))


@harness(timeout=60)
def facets(env):
    """table of facets: id and place of each element, also for groups that are moved."""
    c, s = env.imp('marxs.analysis.coords'), env.imp('marxs.simulator')
    det = env.imp('marxs.optics')
    rot = env.rot(env.choice('rot', [0, 5]))
    moved = env.choice('group', ['plain', 'placed', 'moved centre'])
    ctr = [env.arr([env.real('x', -9, 9), 2, 4]), env.arr([-4, env.real('y', -9, 9), 5])]
    kw = {'position': env.arr([1, -2, 3]), 'orientation': rot} if moved == 'placed' else {}
    g = s.Parallel(elem_class=det.FlatDetector, elem_pos={'position': [v for v in ctr]},
                   elem_args={'zoom': 2}, id_num_offset=5, **kw)
    if moved == 'moved centre':
        m = env.np.eye(4)
        m[:3, 3] = [4, 5, 6]
        g.move_center(m)
    where = [env.matmul(rot, v) + env.arr([1, -2, 3]) if moved == 'placed' else v for v in ctr]
    own = env.choice('plane', [False, True])
    pl = env.rot(3)
    q = env.arr([1, 1, 2])
    args = (c.ProjectOntoPlane(position=q, orientation=pl),) if own else ()
    t = c.facet_table(g, *args)
    env.check('names', set(t.colnames) == {'facet', 'facet_x', 'facet_y', 'facet_z', 'facet_projx',
                                           'facet_projy', 'facet_ang', 'facet_rad'})
    env.check('numbers', list(t['facet']) == [5, 6])
    for i in range(2):
        env.check_vec('place', [t['facet_' + k][i] for k in 'xyz'], where[i])
        l = env.matmul(pl.T, where[i] - q) if own else where[i]
        env.check_eq('projection', t['facet_projx'][i], l[1])
        env.check_eq('projection', t['facet_projy'][i], l[2])
        r = t['facet_rad'][i]
        env.check_eq('radius', r * r, l[1] ** 2 + l[2] ** 2)
        env.check_le('radius', 0, r)
        env.assume(r > env.num(1) / 100)
        env.check_near('angle', r * env.cos(t['facet_ang'][i]), l[1], 1e-9)
        env.check_near('angle', r * env.sin(t['facet_ang'][i]), l[2], 1e-9)
