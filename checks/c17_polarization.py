"""Polarization vectors, reflection and parallel transport."""
from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Directions are at least 1e-3 rad from the y-axis, or exactly along it; directions before and '
    'after an interaction are at least 1e-3 rad from (anti)parallel, or exactly (anti)parallel.',
]


@harness(timeout=60)
def vectors(env):
    """any direction of any length with any angle, in radian or degrees."""
    import astropy.units as u
    pol = env.imp('marxs.math.polarization')
    d = env.unit('d')
    L = env.positive('L', 9)
    env.assume(d[1] * d[1] < 1 - env.num(1) / 10 ** 6)
    y = env.choice('along y', [1, -1])
    b = env.angle('b')
    unit = env.choice('unit', ['plain', 'rad'])
    a = [env.angle('a'), b]
    ang = env.arr(a)
    if unit == 'rad':
        ang = ang * u.rad
    before = env.arr([[L * d[0], L * d[1], L * d[2], 0], [0, L * y, 0, 0]])
    D = before.copy()
    got = pol.polarization_vectors(D, ang)
    r = env.sqrt(1 - d[1] * d[1])
    p = got[0]
    env.check_unit('unit vector', p[:3])
    env.check_eq('direction', p[3], 0)
    env.check_eq('perpendicular', env.dot(p[:3], d), 0)
    env.check_eq('cosine from +y', p[1], env.np.cos(a[0]) * r)
    env.check_eq('sense of rotation', env.dot(p[:3], env.cross(d, env.arr([0, 1, 0]))),
                 env.np.sin(a[0]) * r)
    env.check_vec('along y: from +x', got[1], [env.np.cos(b), 0, -y * env.np.sin(b), 0])
    env.check_vec('input is not changed', D[0], before[0])


@harness(timeout=60)
def degrees(env):
    """angles in degrees."""
    import astropy.units as u
    pol = env.imp('marxs.math.polarization')
    a = env.angle('a', -4, 4)
    got = pol.polarization_vectors(env.arr([[0, 0, 1, 0]]),
                                   env.arr([a * 180 / env.PI]) * u.deg)[0]
    eps = env.num(1) / 10 ** 6
    env.check_near('y', got[1], env.np.cos(a), eps)
    env.check_near('x', got[0], -env.np.sin(a), eps)


def pairs(env):
    """Direction before (rational) and after (any)."""
    d1 = env.arr([env.num(x) / 7 for x in env.choice('d1', [[7, 0, 0], [2, -3, 6]])])
    d2 = env.unit('d')
    c = env.dot(d1, d2)
    env.assume(c * c < 1 - env.num(1) / 10 ** 6)
    return d1, d2


def h(env, v):
    return env.arr([list(v) + [0]])


@harness(timeout=80)
def transport(env):
    """any vector for any change of direction: components along the ray and perpendicular to the
    plane of both rays stay, the sense does not change; and back again."""
    pol = env.imp('marxs.math.polarization')
    d1, d2 = pairs(env)
    L = env.positive('L', 9)
    v = env.vec('v', 3, -3, 3)
    got = pol.parallel_transport(L * h(env, d1), h(env, d2), h(env, v))[0]
    s = env.cross(d1, d2)
    env.check_eq('direction', got[3], 0)
    w = got[:3]
    env.check_eq('along the ray', env.dot(w, d2), env.dot(v, d1))
    env.check_eq('perpendicular to the plane', env.dot(w, s), env.dot(v, s))
    env.check_eq('within the plane', env.dot(w, env.cross(d2, s)), env.dot(v, env.cross(d1, s)))
    back = pol.parallel_transport(h(env, d2), h(env, d1), h(env, w))[0]
    env.check_vec('back again', back[:3], v)


@harness(timeout=60)
def straight(env):
    """rays that do not change keep the vector (or give NaN on request), next to others."""
    pol = env.imp('marxs.math.polarization')
    d = env.unit('d')
    v = env.vec('v', 3, -3, 3)
    sign = env.choice('sign', [1, -1])
    D1 = env.arr([list(d) + [0], [1, 0, 0, 0], [0, 0, 1, 0]])
    D2 = env.arr([list(sign * d) + [0], [0, 1, 0, 0], [0, 0, 1, 0]])
    V = env.arr([list(v) + [0]] * 3)
    j = env.choice('jones', [None, (1, 0), (2, 3)])
    kw = {}
    want = [-v[1], v[0], v[2], 0]
    if j:      # s is z here
        kw['jones'] = env.arr([[j[0], 0], [0, j[1]]])
        want = [-j[1] * v[1], v[0], j[0] * v[2], 0]
    got = pol.parallel_transport(D1, D2, V, **kw)
    env.check_vec('first', got[0], list(v) + [0])
    env.check_vec('turned', got[1], want)
    env.check_vec('last', got[2], list(v) + [0])
    got = pol.parallel_transport(D1, D2, V, replace_nans=False)
    for i in (0, 2):
        for k in range(3):
            env.check('not a number', env.isnan(got[i][k]))
    env.check_vec('turned', got[1], [-v[1], v[0], v[2], 0])


@harness(timeout=80)
def jones(env):
    """any 2 x 2 matrix in the system of the perpendicular (s) and parallel (p) components."""
    pol = env.imp('marxs.math.polarization')
    d1, d2 = pairs(env)
    a, b, c, d = [env.real(n, -2, 2) for n in 'abcd']
    v = env.vec('v', 3, -3, 3)
    J = env.arr([[a, b], [c, d]])
    how = env.choice('how', ['matrix', 'transport'])
    if how == 'matrix':
        m = pol.paralleltransport_matrix(env.arr([list(d1)] * 2), env.arr([list(d2)] * 2),
                                         jones=J)
        env.check('shape', m.shape == (2, 3, 3))
        w = env.matmul(m[1], v)
    else:
        w = pol.parallel_transport(h(env, d1), h(env, d2), h(env, v), jones=J)[0][:3]
    s = env.cross(d1, d2)
    vs, vp = env.dot(v, s), env.dot(v, env.cross(d1, s))
    env.check_eq('s component', env.dot(w, s), a * vs + b * vp)
    env.check_eq('p component', env.dot(w, env.cross(d2, s)), c * vs + d * vp)
    env.check_eq('along the ray', env.dot(w, d2), env.dot(v, d1))


@harness(timeout=60)
def reflection(env):
    """reflection of any vector for any directions before and after."""
    pol = env.imp('marxs.math.polarization')
    d1, d2 = pairs(env)
    v = env.vec('v', 3, -3, 3)
    Q = pol.Q_reflection(env.arr([list(d1 - d2) + [0], [0, 0, 2, 0]]))
    env.check('shape', Q.shape == (2, 4, 4))
    env.check_vec('ray', env.matmul(Q[0], h(env, d1)[0]), list(d2) + [0])
    w = env.matmul(Q[0], h(env, v)[0])
    env.check_eq('length', env.norm2(w[:3]), env.norm2(v))
    env.check_eq('along the ray', env.dot(w[:3], d2), env.dot(v, d1))
    s = env.cross(d1, d2)
    env.check_eq('perpendicular to the plane', env.dot(w[:3], s), env.dot(v, s))
    env.check_eq('direction', w[3], 0)
    env.check_vec('second', env.matmul(Q[1], h(env, v)[0]), [v[0], v[1], -v[2], 0])
    env.check('single vectors are refused', env.raises(
        ValueError, lambda: pol.Q_reflection(env.arr([1, 2, 3, 0]))))
