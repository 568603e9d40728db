"""Placement of elements and homogeneous coordinates."""
from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Orientations are exact rational rotations from a list of ten, or a rational rotation '
    'followed by a symbolic rotation angle; positions within +-100, zooms in (0, 50].',
    'Homogeneous weights are either exactly 1 (or 0), or away from 1 by more than 1e-3 (the '
    'documented 1e-5 snapping of weights near one is outside of the claim).',
]


def make(env, what):
    if what == 'plane':
        geo = env.imp('marxs.math.geometry')
        return lambda **kw: geo.FinitePlane(dict(kw)).pos4d
    if what == 'cylinder':
        geo = env.imp('marxs.math.geometry')
        return lambda **kw: geo.Cylinder(dict(kw)).pos4d
    if what == 'element':
        o = env.imp('marxs.optics.base')
        return lambda **kw: o.FlatOpticalElement(**kw).geometry.pos4d
    if what == 'detector':
        o = env.imp('marxs.optics.detector')
        return lambda **kw: o.FlatDetector(pixsize=70, **kw).geometry.pos4d
    if what == 'baffle':
        o = env.imp('marxs.optics.baffles')
        return lambda **kw: o.Baffle(**kw).geometry.pos4d
    if what == 'lens':
        o = env.imp('marxs.optics.mirror')
        return lambda **kw: o.PerfectLens(focallength=10, **kw).geometry.pos4d
    if what == 'aperture':
        o = env.imp('marxs.optics.aperture')
        return lambda **kw: o.RectangleAperture(**kw).geometry.pos4d
    if what == 'nogeo':
        geo = env.imp('marxs.math.geometry')
        return lambda **kw: geo.NoGeometry(dict(kw)).pos4d


KINDS = ['plane', 'cylinder', 'element', 'detector', 'baffle', 'lens', 'aperture']


def is_placement(env, name, m, c, R, z):
    for i in range(3):
        for j in range(3):
            env.check_eq('%s: linear part [%d,%d]' % (name, i, j), m[i][j], R[i][j] * z[j])
        env.check_eq('%s: translation [%d]' % (name, i), m[i][3], c[i])
    env.check_vec(name + ': last row', m[3], [0, 0, 0, 1])


def _place(kind):
    def f(env):
        mk = make(env, kind)
        R = env.rot(env.choice('rot', [0, 5, 7]))
        c = env.vec('c', 3, -100, 100)
        z = env.arr([env.positive('z%d' % i, 50) for i in range(3)])
        is_placement(env, 'all keywords', mk(position=c.copy(), orientation=R.copy(),
                                             zoom=z.copy()), c, R, z)
        zz = env.positive('zz', 50)
        is_placement(env, 'scalar zoom', mk(position=c.copy(), orientation=R.copy(), zoom=zz),
                     c, R, [zz, zz, zz])
        one = [1, 1, 1]
        is_placement(env, 'position only', mk(position=c.copy()), c, env.rot(0), one)
        is_placement(env, 'orientation only', mk(orientation=R.copy()), [0, 0, 0], R, one)
        is_placement(env, 'zoom only', mk(zoom=z.copy()), [0, 0, 0], env.rot(0), z)
        is_placement(env, 'nothing', mk(), [0, 0, 0], env.rot(0), one)
        is_placement(env, 'matrix', mk(pos4d=env.pos4d(c, R, z)), c, R, z)
    f.__name__ = 'place_' + kind
    f.__doc__ = ('%s: symbolic position and zoom, 3 rational rotations, every keyword '
                 'combination.' % kind)
    return f


for _k in KINDS:
    harness(timeout=80, max_paths=1500)(_place(_k))


@harness(timeout=60)
def place_free_rotation(env):
    """orientation = rational rotation times rotation by any angle."""
    mk = make(env, 'element')
    t = env.angle('t', -7, 7)
    co, si = env.cos(t), env.sin(t)
    for k, ax in enumerate(([[co, -si, 0], [si, co, 0], [0, 0, 1]],
                            [[co, 0, si], [0, 1, 0], [-si, 0, co]])):
        R = env.matmul(env.rot(5), env.arr(ax))
        c = env.vec('c%d' % k, 3, -100, 100)
        z = env.arr([env.positive('z%d%d' % (k, i), 50) for i in range(3)])
        is_placement(env, 'free rotation %d' % k, mk(position=c.copy(), orientation=R.copy(),
                                                   zoom=z.copy()), c, R, z)


def _reject(kind):
    def f(env):
        mk = make(env, kind)
        z = env.vec('z', 3, -5, 5)
        bad = env.or_(z[0] <= 0, z[1] <= 0, z[2] <= 0)
        rej = env.raises(ValueError, lambda: mk(zoom=z.copy()))
        if rej:
            env.check('zoom rejected: some zoom is not positive', bad)
        else:
            env.check('zoom accepted: all zooms are positive', env.not_(bad))
        s = env.real('s', -5, 5)
        rej = env.raises(ValueError, lambda: mk(zoom=s))
        env.check('scalar zoom accepted exactly if positive', bool(rej) == bool(s <= 0))
        env.check('two zooms are rejected', env.raises(ValueError, lambda: mk(zoom=env.arr([1, 2]))))
        m = env.pos4d([1, 2, 3], env.rot(5), [1, 1, 1])
        for kw in ({'position': env.arr([1, 2, 3])}, {'orientation': env.rot(2)},
                   {'zoom': 2.}, {'position': env.arr([1, 2, 3]), 'zoom': 1.}):
            env.check('pos4d together with %s is rejected' % sorted(kw),
                      env.raises(ValueError, lambda: mk(pos4d=m.copy(), **kw)))
    f.__name__ = 'reject_' + kind
    f.__doc__ = '%s: symbolic zoom of either sign; contradictory keywords.' % kind
    return f


for _k in ('element', 'cylinder', 'aperture'):
    harness(timeout=80)(_reject(_k))


@harness(timeout=60)
def reject_singular(env):
    """pos4d with a free 2x2 block: rejected exactly if singular."""
    mk = make(env, 'element')
    a, b, c, d = [env.real(n, -4, 4) for n in 'abcd']
    m = env.arr([[a, b, 0, 1], [c, d, 0, 2], [0, 0, 2, 3], [0, 0, 0, 1]])
    det = a * d - b * c
    rej = env.raises(ValueError, lambda: mk(pos4d=m))
    if rej:
        env.check('rejected matrix is singular', env.eq(det, 0))
    else:
        env.check('accepted matrix is regular', env.not_(env.eq(det, 0)))


@harness(timeout=60)
def homogeneous(env):
    """Euclidean <-> homogeneous, 2 points, symbolic weight."""
    import numpy as np
    u = env.imp('marxs.math.utils')
    p = env.arr([env.vec('p%d' % k, 3, -100, 100) for k in range(2)])
    for w in (0, 1):
        h = u.e2h(p, w)
        for k in range(2):
            env.check_vec('e2h w=%d' % w, h[k], [p[k][0], p[k][1], p[k][2], w])
            env.check_vec('round trip w=%d' % w, u.h2e(h)[k], p[k])
        h1 = u.e2h(p[0], w)
        env.check_vec('e2h single vector', h1, [p[0][0], p[0][1], p[0][2], w])
        env.check_vec('h2e single vector', u.h2e(h1), p[0])
    env.check('weights other than 0 and 1 are rejected',
              env.raises(ValueError, lambda: u.e2h(p, 2)))
    w = env.real('w', -5, 5)
    env.assume(env.or_(w <= env.num(1) - env.num(1) / 512, w >= 1 + env.num(1) / 512))
    env.assume(env.or_(w >= env.num(1) / 64, w <= -env.num(1) / 64))
    h = env.arr([[p[0][0], p[0][1], p[0][2], w], [p[1][0], p[1][1], p[1][2], 2]])
    e = u.h2e(h)
    env.check_vec('general weight', e[0], p[0] / w)
    env.check_vec('general weight, other row', e[1], p[1] / 2)
    h = env.arr([[p[0][0], p[0][1], p[0][2], w], [p[1][0], p[1][1], p[1][2], 0]])
    env.check('mix of points and directions is rejected',
              env.raises(ValueError, lambda: u.h2e(h)))
    hu = env.arr([[p[0][0], p[0][1], p[0][2], w], [p[1][0], p[1][1], p[1][2], 1]])
    d = u.distance_point_point(hu, env.arr([[0, 0, 0, 1], [1, 2, 3, 1]]))
    env.check_eq('distance of points with different weights', d[0] * d[0] * w * w,
                 env.dot(p[0], p[0]))
    q = p[1] - env.arr([1, 2, 3])
    env.check_eq('distance squared', d[1] * d[1], env.dot(q, q))
    env.check_le('distance is not negative', 0, d[1])
    a, b = u.e2h(p[0], 1), u.e2h(p[1], 1)
    env.check_eq('distance is symmetric', u.distance_point_point(a, b),
                 u.distance_point_point(b, a))


@harness(timeout=60)
def affine_builders(env):
    """translation, zoom and matrix to 4x4."""
    u = env.imp('marxs.math.utils')
    x = env.vec('x', 3, -100, 100)
    v = env.vec('v', 3, -100, 100)
    z = env.vec('z', 3, -100, 100)
    s = env.real('s', -9, 9)
    M = env.arr([[env.real('m%d%d' % (i, j), -9, 9) for j in range(3)] for i in range(3)])
    h1, h0 = env.arr([x[0], x[1], x[2], 1]), env.arr([x[0], x[1], x[2], 0])
    T = u.translation2aff(v)
    env.check_vec('translation moves points', env.matmul(T, h1), list(x + v) + [1])
    env.check_vec('translation leaves directions', env.matmul(T, h0), list(x) + [0])
    Z = u.zoom2aff(z)
    env.check_vec('zoom', env.matmul(Z, h1), [x[i] * z[i] for i in range(3)] + [1])
    Zs = u.zoom2aff(s)
    env.check_vec('scalar zoom', env.matmul(Zs, h1), [x[i] * s for i in range(3)] + [1])
    A = u.mat2aff(M)
    env.check_vec('matrix', env.matmul(A, h1), list(env.matmul(M, x)) + [1])
    env.check('wrong translation length', env.raises(ValueError,
              lambda: u.translation2aff(env.arr([1, 2]))))
    env.check('wrong zoom length', env.raises(ValueError, lambda: u.zoom2aff(env.arr([1, 2]))))
    env.assume(env.or_(x[0] >= 1, x[0] <= -1))
    n = u.norm_vector(env.arr([x, [0, 3, 4]]))
    env.check_unit('norm_vector gives a unit vector', n[0])
    env.check_le('norm_vector keeps the orientation', 0, n[0][0] * x[0])
    env.check_vec('norm_vector is parallel', env.cross(n[0], x), [0, 0, 0])
    env.check_vec('other row', n[1], env.arr([0, env.num(3) / 5, env.num(4) / 5]))
    P = u.xyz2zxy
    y = env.matmul(P, h1)
    env.check_vec('axis flip', y, [x[1], x[2], x[0], 1])
