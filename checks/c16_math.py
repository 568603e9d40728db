"""Rotations, lines and planes, and cyclic angles."""
from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Vectors that fix a rotation are at least 0.01 rad from parallel, or exactly parallel '
    '(numpy.allclose decides in between).',
    'Angles within +-9 rad (about three turns); differences of exactly a multiple of a full turn '
    'other than one are outside of the claim.',
]


def is_rotation(env, name, R):
    for i in range(3):
        for j in range(i, 3):
            env.check_eq('%s: orthonormal %d%d' % (name, i, j),
                         sum((R[k][i] * R[k][j] for k in range(3)), env.num(0)), int(i == j))
    c = env.cross(R[:, 0], R[:, 1])
    env.check_vec(name + ': right handed', R[:, 2], c)


def fix(env, e1, f, name=''):
    rot = env.imp('marxs.math.rotations')
    R = rot.ex2vec_fix(e1.copy(), f.copy())
    n2 = env.norm2(e1)
    is_rotation(env, name + 'matrix', R)
    x = R[:, 0]
    env.check_vec(name + 'x-axis is parallel', env.cross(x, e1), [0, 0, 0])
    env.check_lt(name + 'x-axis is not antiparallel', 0, env.dot(x, e1))
    env.check_eq(name + 'fixed vector in the xy-plane', env.dot(R[:, 2], f), 0)
    env.check_lt(name + 'fixed vector on the side of +y', 0, env.dot(R[:, 1], f))


@harness(timeout=60)
def new_x_axis(env):
    """x-axis to any direction in a plane, fixed vector of any length in three directions."""
    a = env.angle('a')
    L, M = env.positive('L', 9), env.positive('M', 9)
    c, s = env.np.cos(a), env.np.sin(a)
    env.assume(s * s > env.num(1) / 1000)
    k = env.choice('plane', [0, 1, 2])
    e1 = [L * c, L * c, L * c]
    e1[k] = L * c
    e1[(k + 1) % 3] = L * s
    e1[(k + 2) % 3] = 0
    f = [0, 0, 0]
    f[k] = env.choice('sign', [1, -1]) * M
    fix(env, env.arr(e1), env.arr(f))


@harness(timeout=60)
def new_x_axis_any(env):
    """x-axis to any direction; fixed vector along a coordinate axis."""
    e1 = env.unit('e')
    k = env.choice('axis', [0, 1, 2])
    env.assume(e1[k] * e1[k] < 1 - env.num(1) / 1000)
    f = [0, 0, 0]
    f[k] = 3
    fix(env, e1, env.arr(f))


@harness(timeout=60)
def new_x_axis_oblique(env):
    """x-axis to an oblique rational direction; fixed vectors in two planes."""
    e1, g, h = [env.arr(x) for x in env.choice('e1', [
        [[1, 2, 2], [2, 1, -2], [2, -2, 1]], [[-2, 6, -3], [3, 2, 2], [0, 0, 1]],
        [[0, 0, -1], [3, -4, 0], [1, 0, 0]]])]
    f = env.real('x', -3, 3) * e1 + env.real('y', env.num(1) / 2, 3) * g + \
        env.choice('z', [0, 1]) * h
    fix(env, e1, f)


@harness(timeout=30)
def parallel(env):
    """parallel and antiparallel vectors are refused."""
    rot = env.imp('marxs.math.rotations')
    e1 = env.arr(env.choice('e1', [[1, 2, 2], [-2, 6, -3], [0, 0, -1]]))
    x = env.real('x', -9, 9, nonzero=True)
    env.check('refused', env.raises(ValueError, lambda: rot.ex2vec_fix(e1, x * e1)))


@harness(timeout=60)
def axis_and_angle(env):
    """rotation matrices for any angle about any axis (of any length)."""
    rot = env.imp('marxs.math.rotations')
    a = [env.angle('a0'), env.angle('a1')]
    u = env.unit('u', 3)
    L = env.positive('L', 9)
    norm = env.choice('normalized', [True, False])
    ax = env.arr([list(u), [0, env.num(3) / 5, env.num(4) / 5]])
    if not norm:
        ax = env.arr([list(L * u), [0, 3, 4]])
    m = rot.axangle2mat(ax, env.arr(a), is_normalized=norm)
    env.check('shape', m.shape == (2, 3, 3))
    v = env.arr([1, -2, 3])
    for i, w in enumerate([u, env.arr([0, env.num(3) / 5, env.num(4) / 5])]):
        c, s = env.np.cos(a[i]), env.np.sin(a[i])
        want = c * v + s * env.cross(w, v) + (1 - c) * env.dot(w, v) * w
        env.check_vec('turned vector %d' % i, env.matmul(m[i], v), want)
        env.check_vec('axis %d' % i, env.matmul(m[i], w), w)
    env.check('number of angles', env.raises(ValueError, lambda: rot.axangle2mat(
        ax, env.arr(a + a))))


@harness(timeout=60)
def line_and_plane(env):
    """the point common to a line (two points, or point and direction) and a plane (point and
    normal), any values; two lines in one list."""
    pl = env.imp('marxs.math.pluecker')
    p, d, n = env.vec('p'), env.vec('d', 3, -3, 3), env.vec('n', 3, -3, 3)
    q = env.vec('q', 3, -3, 3)
    w = env.real('w', env.num(1) / 4, 4)
    env.assume(env.norm2(n) >= 1)
    two = env.choice('two points', [True, False])
    P = env.arr([list(p), [1, 2, 3]])
    D = env.arr([list(d), [0, 0, 1]])
    line = pl.e_pointpoint2line(P, P + D) if two else pl.dir_point2line(D, P)
    for i in range(2):
        env.check_vec('direction', line[i][:3], D[i])
        env.check_vec('moment', line[i][3:], env.cross(D[i], P[i]))
    one = pl.e_pointpoint2line(P[0], P[0] + D[0]) if two else pl.dir_point2line(D[0], P[0])
    env.check_vec('single line', one, line[0])
    plane = pl.point_dir2plane(env.arr([w * q[0], w * q[1], w * q[2], w]),
                               env.arr([n[0], n[1], n[2], 0]))
    env.check_vec('normal of the plane', env.cross(plane[:3], n), [0, 0, 0])
    env.check_lt('same side', 0, env.dot(plane[:3], n))
    env.check_eq('point is in the plane', env.dot(plane[:3], q) + plane[3], 0)
    x = pl.intersect_line_plane(line, plane)
    for i in range(2):
        h = x[i]
        # on the line: (X - w P) x D = 0; in the plane
        env.check_vec('on the line', env.cross(h[:3] - h[3] * P[i], D[i]), [0, 0, 0])
        env.check_eq('in the plane', env.dot(plane, h), 0)
        env.check_eq('finite unless parallel', h[3], env.dot(D[i], plane[:3]))


@harness(timeout=60)
def incidence(env):
    """angle between a line and the normal of a plane, any directions."""
    pl = env.imp('marxs.math.pluecker')
    u = env.unit('u')
    L = env.positive('L', 9)
    n = env.choice('n', [[1, 2, 2], [0, -3, 4], [0, 0, 2]])
    nn = {1: 3, 0: 5}[n[0]] if n[1] else 2
    line = env.arr([L * u[0], L * u[1], L * u[2], 1, 2, 3])
    env.assume(env.dot(u, n) < nn * (1 - env.num(1) / 10 ** 6))
    env.assume(env.dot(u, n) > -nn * (1 - env.num(1) / 10 ** 6))
    a = pl.angle_line_plane(line, env.arr(n + [7]))
    env.check_eq('cosine', env.np.cos(a) * nn, env.dot(u, n))
    env.check_le('not negative', 0, a)
    env.check_le('up to 180 deg', a, env.PI)


@harness(timeout=60)
def distances(env):
    """distance of points with any homogeneous weights; single points and lists; unit vectors."""
    ut = env.imp('marxs.math.utils')
    p, q = env.vec('p'), env.vec('q')
    w = env.choice('w', [1, 3, -2])
    v = env.choice('v', [1, -2, 5])
    hp = env.arr([w * p[0], w * p[1], w * p[2], w])
    hq = env.arr([v * q[0], v * q[1], v * q[2], v])
    d = ut.distance_point_point(hp, hq)
    env.check_eq('distance', d * d, env.norm2(p - q))
    env.check_le('not negative', 0, d)
    d = ut.distance_point_point(env.arr([list(hp), list(hq)]), hq[None, :])
    env.check_eq('list', d[0] * d[0], env.norm2(p - q))
    env.check_eq('same point', d[1], 0)
    env.assume(env.norm2(p) > env.num(1) / 10)
    n = ut.norm_vector(env.arr([list(p), [0, 3, 4]]))
    env.check_unit('unit vector', n[0])
    env.check_vec('same direction', env.cross(n[0], p), [0, 0, 0])
    env.check_lt('same sign', 0, env.dot(n[0], p))
    env.check_vec('second', n[1] * 5, [0, 3, 4])


@harness(timeout=60, max_paths=1500)
def between(env):
    """is an angle between two others: any three angles within three turns."""
    ut = env.imp('marxs.math.utils')
    a, b = env.real('a', -9, 9), env.real('b', -9, 9)
    w = env.real('width', 0, env.num(62) / 10)
    c = b + w                      # the range goes from b to b + w
    turn = env.choice('turns', [0, 1, -1])
    how = env.choice('how', ['single', 'list'])
    b2 = c + turn * 2 * env.PI
    if how == 'single':
        got = ut.angle_between(a, b, b2)
    else:
        got = ut.angle_between(env.arr([a, b]), b, b2)
        env.check('lower border is included', bool(got[1]))
        got = got[0]
    env.assume(w > 0)
    want = False
    for k in range(-4, 5):
        x = a + k * 2 * env.PI
        if x >= b and x <= c:
            want = True
    env.check('in range', bool(got) == want)


@harness(timeout=60)
def ranges(env):
    """range covered by two angles within three turns."""
    ut = env.imp('marxs.math.utils')
    a, b = env.real('a', -9, 9), env.real('b', -9, 9)
    d = b - a
    for k in (-2, -1, 2):
        env.assume(d != 2 * k * env.PI)
    got = ut.anglediff(env.arr([a, b]))
    env.check_le('not negative', 0, got)
    env.check_le('at most a turn', got, 2 * env.PI)
    env.check('same up to full turns', env.or_(*[got == d + 2 * k * env.PI
                                                 for k in range(-3, 4)]))
    if d == 2 * env.PI:
        env.check_eq('a full turn', got, 2 * env.PI)
    if d == 0:
        env.check_eq('nothing', got, 0)
