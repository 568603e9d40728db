"""Ray / cylinder intersection."""
from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Rays start within +-50 of the cylinder axis (units of the radius), arbitrary unit-free '
    'direction vectors with components within +-4; 1 or 2 rays per call.',
    'Angular limits are taken from a fixed list of quadrant-aligned ranges; zoom is symbolic '
    'in the harnesses that say so.',
]


def roots(env, u, d):
    """Smaller and larger ray parameter on the unit circle, or None."""
    a = d[0] * d[0] + d[1] * d[1]
    b = 2 * (u[0] * d[0] + u[1] * d[1])
    c = u[0] * u[0] + u[1] * u[1] - 1
    if a == 0:
        return None
    disc = b * b - 4 * a * c
    if disc < 0:
        return None
    s = env.sqrt(disc)
    return (-b - s) / (2 * a), (-b + s) / (2 * a)


def verify(env, name, hit, ip, loc, pos, dirs, u, d, zoom, inrange):
    r = roots(env, u, d)
    want = None
    if r is not None:
        for t in r:
            x, y, z = (u[i] + t * d[i] for i in range(3))
            if t >= 0 and z <= 1 and z >= -1 and inrange(env, x, y):
                want = t
                break
    env.check(name + ': hit verdict', bool(hit) == (want is not None))
    if hit and want is not None:
        t = want
        env.check_vec(name + ': nearest forward intersection point', ip, pos + t * dirs)
        x, y, z = (u[i] + t * d[i] for i in range(3))
        env.check_eq(name + ': local z', loc[1], z * zoom[2])
        env.check_eq(name + ': cos(local phi)', env.cos(loc[0]), x)
        env.check_eq(name + ': sin(local phi)', env.sin(loc[0]), y)
    if not hit:
        env.check(name + ': no intersection point for a miss',
                  all(env.isnan(v) for v in ip) and all(env.isnan(v) for v in loc))


def setup(env, R, zoom, c, phi_lim=None):
    geo = env.imp('marxs.math.geometry')
    kw = {'pos4d': env.pos4d(c, R, zoom)}
    if phi_lim is not None:
        kw['phi_lim'] = phi_lim
    return geo.Cylinder(kw), kw


def to_global(env, pos4d, u, d):
    p = env.matmul(pos4d, env.arr([u[0], u[1], u[2], 1]))
    g = env.matmul(pos4d, env.arr([d[0], d[1], d[2], 0]))
    return p, g


FULL = (None, lambda env, x, y: True)


def _open(f):
    """Points exactly on the angular limit are left out of the claim."""
    def g(env, x, y):
        v = f(x, y)
        if v == 0:
            env.skip('on the angular limit')
        return bool(v > 0)
    return g


RANGES = {
    'full': lambda env: FULL,
    'x>=0': lambda env: ([-env.PI / 2, env.PI / 2], _open(lambda x, y: x)),
    'y>=0': lambda env: ([0, env.PI], _open(lambda x, y: y)),
    'y<=0': lambda env: ([-env.PI, 0], _open(lambda x, y: -y)),
    'x<=0': lambda env: ([env.PI / 2, 3 * env.PI / 2], _open(lambda x, y: -x)),
    'wrap': lambda env: ([env.PI / 2, -env.PI / 2], _open(lambda x, y: -x)),
}


def one(env, rng, R, zoom, c, flat=False):
    import numpy as np
    phi_lim, inrange = RANGES[rng](env)
    pos4d = env.pos4d(c, R, zoom)
    geo = env.imp('marxs.math.geometry')
    kw = {'pos4d': pos4d.copy()}
    if phi_lim is not None:
        kw['phi_lim'] = list(phi_lim)
    g = geo.Cylinder(kw)
    u = env.vec('u', 3, -50, 50)
    d = env.vec('d', 3, -4, 4)
    env.assume(env.or_(d[0] != 0, d[1] != 0, d[2] != 0))
    if flat:
        u[2] = u[2] * 0
        d[2] = d[2] * 0
    p, gd = to_global(env, pos4d, u, d)
    with np.errstate(all='ignore'):
        hit, ip, loc = g.intersect(env.arr([gd]), env.arr([p]))
    verify(env, 'ray', hit[0], ip[0], loc[0], p, gd, u, d, zoom, inrange)


@harness(timeout=240, max_paths=4000)
def cyl_unit(env):
    """full tube, unit zoom, no rotation."""
    one(env, 'full', env.rot(0), env.arr([1, 1, 1]), env.arr([0, 0, 0]))


@harness(timeout=240, max_paths=4000)
def cyl_moved(env):
    """full tube, rotated (3,1,2,1), moved, fixed zoom (2,2,5)."""
    one(env, 'full', env.rot(5), env.arr([2, 2, 5]), env.arr([3, -7, 2]))


@harness(timeout=240, max_paths=4000)
def cyl_zoom(env):
    """full tube, symbolic radius, height and position."""
    r = env.positive('r', 20)
    h = env.positive('h', 20)
    one(env, 'full', env.rot(0), env.arr([r, r, h]), env.vec('c'))


@harness(timeout=240, max_paths=4000)
def cyl_elliptic(env):
    """elliptical profile, rotated (2,0,0,1)."""
    one(env, 'full', env.rot(4), env.arr([3, 2, 5]), env.arr([3, -7, 2]))


def _lim(rng):
    def f(env):
        one(env, rng, env.rot(2), env.arr([2, 2, 5]), env.arr([1, 0, -2]), True)
    f.__doc__ = 'angular range %s, rotated (2,1,0,0), rays in the plane z=0.' % rng
    f.__name__ = 'cyl_lim_' + rng.replace('>=', '_ge_').replace('<=', '_le_')
    return f


for _r in RANGES:
    if _r != 'full':
        harness(timeout=240, max_paths=4000)(_lim(_r))


@harness(timeout=200, max_paths=4000)
def cyl_two_rays(env):
    """2 rays in one call: ray 0 in the plane z=0 along +x, ray 1 arbitrary height along +y."""
    import numpy as np
    geo = env.imp('marxs.math.geometry')
    zoom = env.arr([2, 2, 3])
    c = env.arr([1, 2, 3])
    R = env.rot(1)
    pos4d = env.pos4d(c, R, zoom)
    g = geo.Cylinder({'pos4d': pos4d.copy()})
    us = [env.arr([env.real('a0', -9, 9), env.real('a1', -9, 9), 0]),
          env.arr([env.real('b0', -9, 9), env.real('b1', -9, 9), env.real('b2', -9, 9)])]
    ds = [env.arr([1, 0, 0]), env.arr([0, 1, 0])]
    gl = [to_global(env, pos4d, u, d) for u, d in zip(us, ds)]
    with np.errstate(all='ignore'):
        hit, ip, loc = g.intersect(env.arr([x[1] for x in gl]), env.arr([x[0] for x in gl]))
    for k in range(2):
        verify(env, 'ray %d' % k, hit[k], ip[k], loc[k], gl[k][0], gl[k][1], us[k], ds[k], zoom,
               FULL[1])


@harness(timeout=60)
def cyl_bases(env):
    """local unit vectors at a symbolic phi; surface points."""
    R = env.rot(5)
    zoom = env.arr([2, 2, 5])
    pos4d = env.pos4d(env.arr([1, 2, 3]), R, zoom)
    g, kw = setup(env, R, zoom, env.arr([1, 2, 3]))
    phi = env.angle('phi', -3, 3)
    c, s = env.cos(phi), env.sin(phi)
    e1, e2, n = g.get_local_euklid_bases(env.arr([[phi, env.num(1) / 2]]))
    def rotv(v):
        w = env.matmul(R, env.arr(v))
        return [w[0], w[1], w[2], 0]
    env.check_vec('e_phi', e1[0], rotv([-s, c, 0]))
    env.check_vec('e_z', e2[0], rotv([0, 0, 1]))
    env.check_vec('normal', n[0], rotv([c, s, 0]))
    surf = g.parametric_surface(env.arr([phi]), env.arr([5, env.num(-5) / 2]))
    for k, zz in enumerate([1, env.num(-1) / 2]):
        env.check_vec('surface point', surf[0, k], env.matmul(pos4d, env.arr([c, s, zz, 1])))
    env.check_eq('R', g['R'], 2)


@harness(timeout=60)
def cyl_rejects(env):
    """first argument must be directions."""
    g, kw = setup(env, env.rot(0), env.arr([1, 1, 1]), env.arr([0, 0, 0]))
    w = env.real('w', -2, 2)
    d = env.arr([[1, 0, 0, w]])
    p = env.arr([[0, 0, 0, 1]])
    if w != 0:
        env.check('position passed as direction is rejected',
                  env.raises(ValueError, lambda: g.intersect(d, p)))
