"""Diffraction orders are drawn from the given probabilities."""
from symx.worker import registry

HARNESSES, harness = registry()
NEEDS = ['marxs.missions.mitsnl.tolerances']
ASSUMPTIONS = [
    'numpy.random.choice and rand draw from the distribution they are asked for; scipy splines '
    '(RectBivariateSpline, interp1d) are replaced by arbitrary functions with values in [0, 1].',
]


def _valid(n):
    def f(env):
        o = env.imp('marxs.optics.grating')
        k = env.choice('orders', [n - 1, n, n + 1]) if n > 1 else env.choice('orders', [n, n + 1])
        p = [env.real('p%d' % i, -2, 2) for i in range(n)]
        bad = env.raises(ValueError, lambda: o.OrderSelector(list(range(k)), p=env.arr(p)))
        if bad:
            env.check('refused only if it has to be', env.or_(
                k != n, env.or_(*[x < 0 for x in p]), sum(p, env.num(0)) > 1))
        else:
            env.check('accepted: same length', k == n)
            env.check('accepted: no negative probability', env.and_(*[x >= 0 for x in p]))
            env.check('accepted: not more than 1 in total', sum(p, env.num(0)) <= 1)
    f.__name__ = 'selector_valid_%d' % n
    f.__doc__ = '%d probabilities in [-2, 2], list of orders shorter, as long, longer' % n
    return f


for _n in (1, 2, 3):
    harness(timeout=40)(_valid(_n))


@harness(timeout=60)
def selector_draw(env):
    """three orders with any probabilities, three photons and a single one."""
    o = env.imp('marxs.optics.grating')
    orders = [-2, 0, 5]
    p = [env.real('p%d' % i, 0, 1) for i in range(3)]
    tot = sum(p, env.num(0))
    env.assume(tot <= 1)
    env.assume(tot > env.num(1) / 1000)
    s = o.OrderSelector(orders, p=env.arr(p))
    n = env.choice('n', [0, 1, 2])     # 0: scalar energy
    if n:
        e = env.arr([env.positive('e%d' % i, 10) for i in range(n)])
        m, pr = s(e, None, None)
        env.check('one order per photon', len(m) == n and len(pr) == n)
    else:
        m, pr = s(1.5, None, None)
        m, pr = [m], [pr]
    for i in range(max(n, 1)):
        env.check_choice('order %d' % i, i, m[i], orders, p)
        env.check_eq('probability %d' % i, pr[i], tot)


@harness(timeout=40)
def selector_uniform(env):
    """no probabilities given: all orders are equally likely and no photon is lost."""
    o = env.imp('marxs.optics.grating')
    orders = [1, 2, 4, 7]
    s = o.OrderSelector(orders)
    m, pr = s(env.arr([1, 2]), None, None)
    for i in range(2):
        env.check_choice('order %d' % i, i, m[i], orders, [env.num(1) / 4] * 4)
        env.check_eq('probability %d' % i, pr[i], 1)


def _file(env, o, tab, orders):
    f = lambda *a, **k: env.arr(tab)
    env.patch(o.np, 'loadtxt', f)
    env.patch(o.np, 'genfromtxt', f)
    try:
        return o.EfficiencyFile('name', orders)
    finally:
        env.unpatch()


@harness(timeout=60)
def columns(env):
    """a file needs one column for each order."""
    o = env.imp('marxs.optics.grating')
    n = env.choice('columns', [1, 2, 3])
    tab = [[k] + [env.num(1) / 4] * n for k in (1, 2)]
    bad = env.raises(ValueError, lambda: _file(env, o, tab, [0, 1]))
    env.check('refused with a wrong number of columns', bad == (n != 2))


def nearest(grid, e):
    """Index of the grid point next to e; None on the border between two."""
    best = 0
    for j in range(1, len(grid)):
        a, b = grid[best] - e, grid[j] - e
        a, b = (a if a > 0 else -a), (b if b > 0 else -b)
        if b < a:
            best = j
    return best


def _eff(nrow, norder, nphot):
    def f(env):
        o = env.imp('marxs.optics.grating')
        grid = [1, 2, 4][:nrow]
        orders = [-1, 0, 3][:norder]
        p = [[env.real('p%d%d' % (i, j), 0, 1) for j in range(norder)] for i in range(nrow)]
        tot = [sum(q, env.num(0)) for q in p]
        for t in tot:
            env.assume(env.or_(t == 0, t > env.num(1) / 1000))
            env.assume(t <= 1)
        el = _file(env, o, [[grid[i]] + p[i] for i in range(nrow)], orders)
        e = [env.real('e%d' % i, env.num(1) / 10, 5) for i in range(nphot)]
        m, pr = el(env.arr(e), None, None)
        for i in range(nphot):
            k = nearest(grid, e[i])
            env.check_eq('probability of photon %d' % i, pr[i], tot[k])
            if tot[k] > 0:
                env.check_choice('order of photon %d' % i, i, m[i], orders, p[k])
            else:
                env.check('some order for photon %d' % i, any(env.same(m[i], q) for q in orders))
    f.__name__ = 'file_%d_energies_%d_orders_%d_photons' % (nrow, norder, nphot)
    f.__doc__ = ('efficiency file with %d energies and %d orders (also energies without any '
                 'efficiency), %d photons of any energy' % (nrow, norder, nphot))
    return f


harness(timeout=60)(_eff(1, 3, 1))
harness(timeout=80, max_paths=1500)(_eff(3, 2, 1))
harness(timeout=80, max_paths=1500)(_eff(2, 2, 2))


@harness(timeout=30)
def file_mismatch(env):
    """number of orders has to match the columns of the file."""
    o = env.imp('marxs.optics.grating')
    n = env.choice('n', [1, 2, 3, 4])
    bad = env.raises(ValueError, lambda: _file(env, o, [[1, .1, .2, .3], [2, .2, .1, 0]],
                                               list(range(n))))
    env.check('refused if and only if it does not match', bad == (n != 3))


# ------------------------------------------------------------ tables of CAT grating efficiency
HC = 1.2398419843320025      # nm keV


def cat(env):
    return env.imp('marxs.missions.mitsnl.catgrating')


def table(env, n_wave=2, n_theta=2, orders=(-1, 0, 2)):
    """Real table (the splines are replaced)."""
    from astropy.table import Table
    import astropy.units as u
    import numpy
    t = Table()
    w = numpy.array([1. + i for i in range(n_wave) for j in range(n_theta)])
    b = numpy.array([1. + j for i in range(n_wave) for j in range(n_theta)])
    t['wave'] = w
    t['wave'].unit = u.nm
    t['theta'] = b
    t['theta'].unit = u.deg
    for k, m in enumerate(orders):
        t['%d' % m] = 0.1 * (k + 1) + 0.01 * w + 0.001 * b
    return t


def splines(env, c):
    """Replace the spline class: every evaluation gives an arbitrary efficiency."""
    made = []

    class Spline:
        def __init__(self, x, y, z, **kw):
            self.args = (x, y, z)
            self.calls = 0
            made.append(self)

        def ev(self, x, y):
            self.at = (list(x), list(y))
            self.calls += 1
            self.val = [env.real('eff%d_%d_%d' % (made.index(self), self.calls, i), 0,
                                 env.num(1) / 3) for i in range(len(x))]
            return env.arr(self.val)

        def __call__(self, x, y, grid=True):
            if grid:
                raise NotImplementedError
            return self.ev(x, y)
    env.patch(c, 'RectBivariateSpline', Spline)
    return made


@harness(timeout=80)
def table_lookup(env):
    """two photons, three orders; each order has its own arbitrary efficiency surface."""
    c = cat(env)
    orders = [-1, 0, 2]
    made = splines(env, c)
    sel = c.InterpolateEfficiencyTable(table(env, orders=orders))
    env.check('one surface per order', len(made) == 3)
    for k in range(3):
        x, y, z = made[k].args
        env.check_vec('wavelengths of order %d' % k, [env.num(float(a)) for a in x], [1, 2])
        for a, ref in zip(list(y), (1, 2)):
            env.check_near('blaze angles of order %d' % k, float(getattr(a, 'value', a)),
                           ref * 0.017453292519943295, 1e-12)
        for i in range(2):
            for j in range(2):
                env.check_near('values of order %d' % k, float(z[i][j]),
                               .1 * (k + 1) + .01 * (i + 1) + .001 * (j + 1), 1e-12)
    w = [env.real('w%d' % i, env.num(1) / 2, 5) for i in range(2)]
    b = [env.real('b%d' % i, 0, 1) for i in range(2)]
    e = env.arr([env.num(HC) / x for x in w])
    o, p = sel.probabilities(e, None, env.arr(b))
    env.check('orders', [int(x) for x in o] == orders)
    for i in range(2):
        for k in range(3):
            env.check_near('wavelength, order %d, photon %d' % (k, i), made[k].at[0][i], w[i],
                           env.num(1) / 10 ** 6)
            env.check_eq('blaze, order %d, photon %d' % (k, i), made[k].at[1][i], b[i])
            env.check_eq('probability of order %d, photon %d' % (k, i), p[k][i], made[k].val[i])
    m, pr = sel(e, None, env.arr(b))
    for i in range(2):
        q = [x.val[i] for x in made]
        tot = sum(q, env.num(0))
        env.check_eq('total probability of photon %d' % i, pr[i], tot)
        if tot > 0:
            env.check_choice('order of photon %d' % i, i, m[i], orders, q)


@harness(timeout=60)
def table_disturbed(env):
    """wavy gratings: the blaze angle is changed by a random number with the given width."""
    c = cat(env)
    t = env.imp('marxs.missions.mitsnl.tolerances')
    cls = env.choice('class', ['OrderSelectorWavy', 'OrderSelectorTopHat'])
    made = splines(env, c)
    kw = 'wavysigma' if cls == 'OrderSelectorWavy' else 'tophatwidth'
    s = env.positive('s', 1)
    sel = getattr(t, cls)(**{kw: s, 'tab': table(env)})
    w = [env.real('w%d' % i, env.num(1) / 2, 5) for i in range(2)]
    b = [env.real('b%d' % i, 0, 1) for i in range(2)]
    o, p = sel.probabilities(env.arr([env.num(HC) / x for x in w]), None, env.arr(b))
    d = env.draws()
    for i in range(2):
        off = d[i] if cls == 'OrderSelectorWavy' else d[i] - env.num(1) / 2
        for k in range(3):
            env.check_eq('blaze photon %d' % i, made[k].at[1][i], b[i] + s * off)
            env.check_eq('photon %d' % i, p[k][i], made[k].val[i])


@harness(timeout=40)
def table_not_regular(env):
    """tables that are not on a regular, sorted grid are refused."""
    ut = env.imp('marxs.utils')
    from astropy.table import Table
    import numpy
    rows = env.choice('rows', [[(1, 1), (1, 2), (2, 1), (2, 2)], [(1, 1), (1, 2), (2, 1)],
                               [(1, 1), (2, 1), (1, 2), (2, 2)], [(1, 1), (1, 2), (2, 2), (2, 1)],
                               [(2, 1), (2, 2), (1, 1), (1, 2)],
                               [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3)]])
    t = Table(rows=[(float(a), float(b), 10. * a + b) for a, b in rows], names=['x', 'y', 'z'])
    try:
        x, y, z = ut.tablerows_to_2d(t)
    except ut.DataFileFormatException:
        env.check('refused', len(rows) == 3 or rows in (
            [(1, 1), (2, 1), (1, 2), (2, 2)], [(1, 1), (1, 2), (2, 2), (2, 1)]))
        return
    env.check('shape', len(x) * len(y) == len(rows))
    for i in range(len(x)):
        for j in range(len(y)):
            env.check_near('value', float(z[0][i][j]), 10 * float(x[i]) + float(y[j]), 1e-9)
