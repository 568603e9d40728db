"""Placement of many elements: grids and arcs on a Rowland torus, and elements that point to
given places."""
import types

from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'The point that scipy.optimize.root finds on the line of an element is any point of the line '
    'on the torus (outside of the self-intersection of the torus).',
    'At most 4 elements per row or arc, sizes relative to the size of an element in one '
    'direction; element sizes, radii and places are symbolic.',
]


def facet(env):
    base = env.imp('marxs.optics.base')
    return base.FlatOpticalElement


def bare(env, cls, **attrs):
    """An array that is not built (the methods under check only use these attributes)."""
    row = env.imp('marxs.design.rowland')
    x = object.__new__(getattr(row, cls))
    for k, v in attrs.items():
        setattr(x, k, v)
    return x


@harness(timeout=60)
def grid(env):
    """rows and columns cover any rectangle with as few elements as possible, side by side and
    centred; a range without width gives one element."""
    dy, dz = env.positive('dy', 20), env.positive('dz', 20)
    ky = env.choice('flat', [0, None])
    if ky is None:
        ky = env.real('ky', 0, env.num(7) / 2)
    kz = env.real('kz', 0, env.num(5) / 2)
    y0, z0 = env.real('y0', -100, 100), env.real('z0', -100, 100)
    g = bare(env, 'RectangularGrid', d_element=[dy, dz], y_range=[y0, y0 + ky * dy],
             z_range=[z0, z0 + kz * dz])
    y, z = g.elemposyz()
    ny, nz = 1, 1
    while ny < ky:
        ny += 1
    while nz < kz:
        nz += 1
    env.check('number of elements', len(y) == ny * nz and len(z) == ny * nz)
    my, mz = y0 + ky * dy / 2, z0 + kz * dz / 2
    todo = list(range(len(y)))
    for i in range(ny):
        for j in range(nz):
            wy = my + (2 * i + 1 - ny) * dy / 2
            wz = mz + (2 * j + 1 - nz) * dz / 2
            hit = [k for k in todo if env.same(y[k], wy) and env.same(z[k], wz)]
            if hit:
                todo.remove(hit[0])
            env.check('element %d %d' % (i, j), len(hit) > 0)


def arcs(env):
    w = env.choice('width', [1, env.num(1) / 2])
    p0 = env.choice('start', [0, -1, 5])
    p1 = env.choice('turns', [0, 1])
    start = env.num(p0)
    end = start + w
    if p1:       # the same segment, given with a border that is one turn lower
        end = end - 2 * env.PI
    if env.choice('full', [False, True]):
        w, start, end = 2 * env.PI, env.num(0), 2 * env.PI
    return w, start, end


@harness(timeout=80, max_paths=800)
def arc(env):
    """any radius, element size and segment: as many elements as fit on the inner edge, evenly
    spaced and centred in the segment, none of which reaches beyond it."""
    w, start, end = arcs(env)
    dz = env.real('dz', env.num(1) / 10, 10)
    dy = env.real('dy', env.num(1) / 10, 1)
    # in units of the length of an element
    k = env.real('k', 0, env.num(9) / 2)
    r = k * dz / w + dy / 2
    env.assume(r > dy)
    env.assume(r * 3 > dz * 2)      # an element is smaller than the circle
    g = bare(env, 'GratingArrayStructure', d_element=[dy, dz], phi=[start, end], radius=[1, 2])
    a = g.distribute_elements_on_arc(r)
    n = 0
    while n + 1 <= k:
        n += 1
    env.check('number of elements', len(a) == n)
    if len(a) == 0:
        return
    twopi = 2 * env.PI

    def up(x):       # turns up from the start of the segment
        x = x - start
        while x < 0:
            x = x + twopi
        while x >= twopi:
            x = x - twopi
        return x
    p = [up(x) for x in a]
    gap = w - p[-1]
    env.check_eq('centred', p[0], gap)
    for i in range(1, n - 1):
        env.check_eq('even', p[i + 1] - p[i], p[1] - p[0])
    env.check_lt('within the segment', 0, p[0])
    if n > 1:
        env.check_lt('in order', p[0], p[1])
    half = dz / (2 * r)
    env.check_le('does not reach beyond the segment', half, p[0])


@harness(timeout=60, max_paths=800)
def overlap(env):
    """elements of an arc do not overlap."""
    w, start, end = arcs(env)
    dz = env.real('dz', env.num(1) / 10, 10)
    k = env.real('k', 2, env.num(9) / 2)
    dy = env.num(1) / 10
    r = k * dz / w + dy / 2
    g = bare(env, 'GratingArrayStructure', d_element=[dy, dz], phi=[start, end], radius=[1, 2])
    a = g.distribute_elements_on_arc(r)
    d = a[1] - a[0]
    if d < 0:
        d = d + 2 * env.PI
    env.check_le('elements do not overlap', dz, d * r)


@harness(timeout=60)
def radii(env):
    """any pairs of inner and outer radius: as few elements as possible, side by side and
    centred between the two; several pairs."""
    dy = env.positive('dy', 20)
    pairs = env.choice('pairs', [1, 2])
    r, want = [], []
    for i in range(pairs):
        k = env.real('k%d' % i, env.num(1) / 100, env.num(7) / 2)
        r0 = env.real('r%d' % i, 1, 100)
        r += [r0, r0 + k * dy]
        n = 1
        while n < k:
            n += 1
        want += [r0 + k * dy / 2 + (2 * j + 1 - n) * dy / 2 for j in range(n)]
    g = bare(env, 'GratingArrayStructure', d_element=[dy, dy], radius=r, phi=[0, 1])
    got = g.distribute_elements_on_radius()
    env.check('number', len(got) == len(want))
    for a, b in zip(got, want):
        env.check_eq('radius', a, b)


def around(env, y, z, r, a):
    """Is (y, z) at radius r and angle a, from the y or the z axis?"""
    return [[env.same(y, r * env.np.cos(a)), env.same(z, r * env.np.sin(a))],
            [env.same(y, r * env.np.sin(a)), env.same(z, r * env.np.cos(a))]]


def ring_places(env):
    r, dy, dz = env.num(10), env.num(1), env.num(4)
    a = env.angle('a', 0, 6)
    w = env.choice('how', [None, 1, 2])
    rad = [env.real('r0', 2, 4), 0, env.real('r1', 5, 7), 0]
    rad[1], rad[3] = rad[0] + 1, rad[2] + env.num(3) / 2
    g = bare(env, 'GratingArrayStructure', d_element=[dy, dz], radius=rad,
             phi=[a] if w is None else [a, a + w])
    if w is not None:      # two for any radius
        n = [1, 2, 2] if w == 1 else [2, 3, 4]
        g.distribute_elements_on_arc = lambda r: env.arr([a + i for i in range(3)])
        ang = [a + i for i in range(3)]
    else:
        ang = [a]
    y, z = g.elemposyz()
    want = [(q, b) for q in (rad[0] + env.num(1) / 2, rad[2] + env.num(1) / 4,
                             rad[2] + env.num(5) / 4) for b in ang]
    return y, z, want


@harness(timeout=60)
def rings(env):
    """places from any radius and angle; one element per radius for a single angle."""
    y, z, want = ring_places(env)
    env.check('number', len(y) == len(want) and len(z) == len(want))
    conv = [around(env, y[i], z[i], *want[i]) for i in range(len(want))]
    env.check('places', all(all(c[0]) for c in conv) or all(all(c[1]) for c in conv))


@harness(timeout=60)
def zero_angle(env):
    """angles are measured from the positive y axis."""
    y, z, want = ring_places(env)
    env.check_eq('angle 0 is on the y axis', y[0], want[0][0] * env.np.cos(want[0][1]))


def frame(env, name, m, c, ex, parallel):
    """m: unit axes; x along ex; y in the plane of ex and parallel."""
    cols = [[m[i][j] for i in range(3)] for j in range(3)]
    for i in range(3):
        for j in range(i, 3):
            env.check_eq('%s: orthonormal %d%d' % (name, i, j), env.dot(cols[i], cols[j]),
                         int(i == j))
    env.check_vec(name + ': right handed', cols[2], env.cross(cols[0], cols[1]))
    env.check_vec(name + ': centre', [m[0][3], m[1][3], m[2][3]], c)
    env.check_vec(name + ': normal', env.cross(cols[0], ex), [0, 0, 0])
    env.check_lt(name + ': side', 0, env.dot(cols[0], ex))
    env.check_eq(name + ': y is in the plane', env.dot(cols[2], parallel), 0)
    env.check_lt(name + ': side of y', 0, env.dot(cols[1], parallel))


@harness(timeout=80, max_paths=600)
def directed(env):
    """elements at any places, with normals given by a direction, by a place on their line or by
    a function, and one side along a direction, towards a place or given by a function."""
    sim = env.imp('marxs.simulator')
    n = env.num
    q = env.real('q', -2, 2)
    hx = env.real('hx', 1, 9)
    normal = env.choice('normal', ['direction', 'place', 'function'])
    side = env.choice('side', ['direction', 'place', 'function'])
    # places with sides of rational length from the origin
    c = env.arr([[hx * 2, hx, hx * 2, 1], [6 * hx * 2, hx * 2 * 2, 3 * hx * 2, 2]])
    spec = {'direction': env.arr([3, 0, 4, 0]), 'place': env.arr([0, 0, 0, 5]),
            'function': lambda p: env.arr([[1, 2, 2, 0], [0, 3, 4, 0]])}[normal]
    sspec = {'direction': env.arr([0, 2, 0, 0]), 'place': env.arr([hx * 4, (hx - 3) * 2, hx * 4, 2]),
             'function': lambda p, m: env.arr([[0, 1, 0, 0], [1, 0, 0, 0]])}[side]
    if side == 'place' and normal == 'place':
        env.skip()
    par = sim.ParallelCalculated(pos_spec=c.copy() if env.choice('pos', [0, 1]) else
                                 (lambda: c.copy()),
                                 normal_spec=spec, parallel_spec=sspec,
                                 elem_class=facet(env), elem_args={'zoom': env.arr([1, 1, 1])})
    env.check('two elements', len(par.elements) == 2)
    for i in range(2):
        cc = [c[i][k] / c[i][3] for k in range(3)]
        ex = {'direction': [3, 0, 4], 'place': cc,
              'function': [[1, 2, 2], [0, 3, 4]][i]}[normal]
        pa = {'direction': [0, 2, 0],
              'place': [cc[0] - hx * 2, cc[1] - hx + 3, cc[2] - hx * 2],
              'function': [[0, 1, 0], [1, 0, 0]][i]}[side]
        frame(env, 'element %d' % i, par.elements[i].geometry.pos4d, cc, ex, pa)


@harness(timeout=80)
def on_torus(env):
    """elements on a torus of any radii at any place: each one is on the torus, where the line
    through its place in the grid along the axis meets it, facing inwards."""
    row = env.imp('marxs.design.rowland')
    R, r = env.real('R', 2, 50), env.real('r', 1, 50)
    env.assume(r < R * env.num(3) / 2)
    t, p = env.angle('t', -1, 1), env.angle('p', -1, 1)
    ct, st, cp, sp = env.np.cos(t), env.np.sin(t), env.np.cos(p), env.np.sin(p)
    env.assume(ct > env.num(1) / 10)
    env.assume(cp > env.num(1) / 10)
    k = R + r * ct
    rot, c = env.rot(env.choice('rot', [0, 7])), env.arr([3, -2, 1])
    T = row.RowlandTorus(R, r, position=c.copy(), orientation=rot.copy())
    guess = []

    def root(fun, x0, args=(), **kw):
        """finds the place that y and z were made from"""
        o, v = args
        loc = env.matmul(rot.T, o - c)
        x = env.arr([k * cp - loc[0]])
        guess.append(loc[0])
        env.check_eq('the root is one', fun(x, *args).reshape(-1)[0], 0)
        return types.SimpleNamespace(success=True, x=x)
    if env.symbolic:
        env.patch(row, 'optimize', types.SimpleNamespace(root=root))
    y, z = r * st, k * sp
    kw = env.choice('kw', [{}, {'guess_distance': 7}])
    d = env.positive('d', 5)
    try:
        g = row.RectangularGrid(rowland=T, d_element=[d, d], y_range=[y, y], z_range=[z, z],
                                elem_class=facet(env), elem_args={'zoom': env.arr([1, d, d])},
                                **kw)
    except Exception as ex:
        # the real search may find nothing
        env.assume(env.symbolic or 'Intersection with torus not found' not in str(ex))
        raise
    env.check('one element', len(g.elements) == 1)
    if env.symbolic:
        env.check_eq('start of the search', guess[0], 7 if kw else R + r)
    m = g.elements[0].geometry.pos4d
    ctr = env.arr([m[i][3] for i in range(3)])
    loc = env.matmul(rot.T, ctr - c)
    env.check_eq('y', loc[1], y)
    env.check_eq('z', loc[2], z)
    if not env.symbolic:     # the real search may find another of the four places
        env.assume(abs(loc[0] - k * cp) < 1e-3)
    if env.symbolic:
        env.check_eq('x', loc[0], k * cp)
        n = [ct * cp, st, ct * sp]
    else:
        rho = env.sqrt(loc[0] ** 2 + loc[2] ** 2)
        env.check_near('on the torus', T.quartic(ctr), 0, 1e-3 * max(R, r) ** 4)
        f = (rho - R) / rho / r
        n = [loc[0] * f, loc[1] / r, loc[2] * f]
    n = env.matmul(rot, env.arr(n))
    ax = env.matmul(rot, env.arr([0, 1, 0]))
    env.check_vec('normal', [m[i][0] for i in range(3)], -n)
    ey = [m[i][1] / d for i in range(3)]
    env.check_eq('y axis is perpendicular to the normal', env.dot(ey, n), 0)
    env.check_eq('y axis is in the plane of the axis', env.dot(env.cross(n, ey), ax), 0)
    env.check_eq('size', env.dot(ey, ey), 1)
    env.check_lt('y axis is on the side of the axis', 0, env.dot(ey, ax))
