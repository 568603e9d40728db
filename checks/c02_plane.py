"""Ray / flat surface intersection."""
from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Element position and half-sizes are symbolic; the orientation is one of the exact rational '
    'rotations listed per harness (symbolic about one axis in plane_free_rotation).',
    'Ray start points within +-50 of the element centre per local axis; ray directions are '
    'arbitrary unit vectors; 1 or 2 rays per call.',
]


def surface(env, R, box=20):
    c = env.vec('c', 3, -box, box)
    z = [env.positive('z%d' % i, box) for i in range(3)]
    return c, z, env.pos4d(c, R, z)


def ray(env, k, c, R, zero_x=False):
    """Symbolic ray given in the local frame; returns global and local."""
    u = env.vec('u%d' % k, 3, -50, 50)
    d = env.unit('d%d' % k)
    p = c + env.matmul(R, u)
    g = env.matmul(R, d)
    return (env.arr([p[0], p[1], p[2], 1]), env.arr([g[0], g[1], g[2], 0]), u, d)


def expect(env, u, d, z):
    """(hit?, t) for a ray in the local frame of the rectangle (closed edges)."""
    if d[0] == 0:
        return False, None
    t = -u[0] / d[0]
    y = u[1] + t * d[1]
    x = u[2] + t * d[2]
    return env.and_(t >= 0, y <= z[1], y >= -z[1], x <= z[2], x >= -z[2]), t


def verify(env, k, hit, ip, loc, pos, dirs, u, d, z):
    want, t = expect(env, u, d, z)
    if hit:
        env.check('ray %d: reported hit is a geometric hit' % k, want)
        if t is None:
            return
        env.check_vec('ray %d: hit point' % k, ip, pos + t * dirs)
        env.check_eq('ray %d: local y' % k, loc[0], u[1] + t * d[1])
        env.check_eq('ray %d: local z' % k, loc[1], u[2] + t * d[2])
    else:
        env.check('ray %d: reported miss is a geometric miss' % k, env.not_(want))
        env.check('ray %d: no intersection point for a miss' % k,
                  all(env.isnan(x) for x in ip[:3]) and all(env.isnan(x) for x in loc))


def plane_case(env, R, n=1, cls='FinitePlane', single=False):
    geo = env.imp('marxs.math.geometry')
    c, z, pos4d = surface(env, R)
    g = getattr(geo, cls)({'pos4d': pos4d})
    rays = [ray(env, k, c, R) for k in range(n)]
    pos = env.arr([r[0] for r in rays])
    dirs = env.arr([r[1] for r in rays])
    before = (pos.copy(), dirs.copy())
    if single:
        hit, ip, loc = g.intersect(dirs[0], pos[0])
        # one photon: documented for a single 4-vector
        verify(env, 0, hit, ip, loc.reshape(-1), pos[0], dirs[0], rays[0][2], rays[0][3], z)
        return
    hit, ip, loc = g.intersect(dirs, pos)
    env.check('one verdict per ray', len(hit) == n and len(ip) == n and len(loc) == n)
    for k in range(n):
        verify(env, k, hit[k], ip[k], loc[k], pos[k], dirs[k], rays[k][2], rays[k][3], z)
    env.check_vec('input positions not modified', pos, before[0])
    env.check_vec('input directions not modified', dirs, before[1])


@harness(timeout=120)
def plane_axis(env):
    """1 ray, element axes parallel to the global axes."""
    plane_case(env, env.rot(0))


@harness(timeout=120)
def plane_rotated(env):
    """1 ray, generic rational rotation (3,1,2,1)."""
    plane_case(env, env.rot(5))


@harness(timeout=120)
def plane_rotated_b(env):
    """1 ray, generic rational rotation (4,-1,2,-3)."""
    plane_case(env, env.rot(7))


@harness(timeout=200, max_paths=2000)
def plane_two_rays(env):
    """2 rays in one call (results must not mix), rotation (1,1,0,0)."""
    geo = env.imp('marxs.math.geometry')
    R = env.rot(1)
    c = env.arr([1, -2, 3])
    z = env.arr([1, 2, 3])
    g = geo.FinitePlane({'pos4d': env.pos4d(c, R, z)})
    rays = [ray(env, k, c, R) for k in range(2)]
    for r in rays:
        env.assume(r[3][0] >= env.num(1) / 8)
    env.assume(env.eq(rays[0][2][2], 1))
    env.assume(env.eq(rays[0][3][2], 0))
    env.assume(env.eq(rays[1][2][1], 2))
    env.assume(env.eq(rays[1][3][1], 0))
    pos = env.arr([r[0] for r in rays])
    dirs = env.arr([r[1] for r in rays])
    hit, ip, loc = g.intersect(dirs, pos)
    for k in range(2):
        verify(env, k, hit[k], ip[k], loc[k], pos[k], dirs[k], rays[k][2], rays[k][3], z)


@harness(timeout=120, tier='thorough')
def plane_free_rotation(env):
    """1 ray, rotation about an axis by an arbitrary angle."""
    t = env.angle('phi', -3, 3)
    co, si = env.cos(t), env.sin(t)
    R0 = env.rot(3)
    R = env.matmul(R0, env.arr([[co, -si, 0], [si, co, 0], [0, 0, 1]]))
    plane_case(env, R)


@harness(timeout=120)
def plane_bases(env):
    """Local unit vectors (any zoom, rational rotations) are right handed and orthonormal."""
    import numpy as np
    geo = env.imp('marxs.math.geometry')
    R = env.rot(env.choice('rot', [0, 2, 5, 6]))
    c, z, pos4d = surface(env, R)
    g = geo.FinitePlane({'pos4d': pos4d})
    ey, ez, en = g.get_local_euklid_bases(env.arr([[1, 2], [3, 4]]))
    for k in range(2):
        env.check_vec('e_y', ey[k], [R[0][1], R[1][1], R[2][1], 0])
        env.check_vec('e_z', ez[k], [R[0][2], R[1][2], R[2][2], 0])
        env.check_vec('normal', en[k], [R[0][0], R[1][0], R[2][0], 0])
    env.check_vec('center', g['center'], [c[0], c[1], c[2], 1])
    pl = g['plane']
    env.check_eq('plane contains centre', env.dot(pl, g['center']), 0)
    env.check_vec('plane normal', pl[:3], [R[0][0], R[1][0], R[2][0]])
    for key, j in (('v_x', 0), ('v_y', 1), ('v_z', 2)):
        env.check_vec(key, g[key], [R[0][j] * z[j], R[1][j] * z[j], R[2][j] * z[j], 0])
