"""The Rowland torus: points, normals, intersections and designs of instruments."""
import types

from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'The torus is placed with a translation and an exact rational rotation (no zoom); radii '
    '0.1 <= R <= 50 and r < 2 R for the way back from places to angles.',
    'scipy.optimize.root returns any root of the function that it is given, or reports that it '
    'found none; which of the up to four points of a line on the torus it finds is not decided.',
]


def torus(env, R, r, rot=None, c=None):
    row = env.imp('marxs.design.rowland')
    if rot is None:
        return row.RowlandTorus(R, r)
    return row.RowlandTorus(R, r, position=env.arr(list(c)), orientation=rot.copy())


def radii(env, rmax=None):
    R = env.real('R', env.num(1) / 10, 50)
    r = env.positive('r', 50)
    if rmax:
        env.assume(r < rmax * R)
    return R, r


def glob(env, rot, c, v, w=1):
    p = env.matmul(rot, env.arr(list(v)))
    if w:
        p = p + env.arr(list(c))
    return [p[0], p[1], p[2], w]


@harness(timeout=60)
def points(env):
    """place of the point for any two angles, any radii, any place of the torus."""
    R, r = radii(env)
    t, p = env.angle('t'), env.angle('p')
    ct, st, cp, sp = env.np.cos(t), env.np.sin(t), env.np.cos(p), env.np.sin(p)
    rot = env.rot(env.choice('rot', [0, 5, 7]))
    c = env.vec('c', 3, -50, 50)
    T = torus(env, R, r, rot, c)
    loc = [(R + r * ct) * cp, r * st, (R + r * ct) * sp]
    want = glob(env, rot, c, loc)
    for how in ('list', 'single', 'surface'):
        if how == 'list':
            got = T.parametric(env.arr([t, 0]), env.arr([p, p]))
            env.check_vec('second point', got[1], glob(env, rot, c, [(R + r) * cp, 0,
                                                                    (R + r) * sp]))
            got = got[0]
        elif how == 'single':
            got = T.parametric(t, p)
        else:
            got = T.parametric_surface(env.arr([t, 0 * t]), env.arr([p]), {})
            env.check('shape', got.shape[-1] == 4 and got.size == 8)
            got = got.reshape(-1, 4)[0]
        env.check_vec('point ' + how, got, want)
    env.check_eq('on the surface', T.quartic(env.arr([want[:3]]))[0], 0)
    env.check_eq('on the surface (single)', T.quartic(env.arr(want[:3])), 0)
    env.check_eq('on the surface (local)', T.quartic(env.arr(loc), transform=False), 0)
    n = T.normal_parametric(env.arr([t]), env.arr([p]))[0]
    env.check_vec('normal', n, glob(env, rot, c, [ct * cp, st, ct * sp], 0))


@harness(timeout=60)
def surface(env):
    """the equation is zero exactly on the surface, for any point in space: it is the product of
    the equations of the two circles in the plane through the point and the axis."""
    R, r = radii(env)
    x = env.vec('x', 3, -50, 50)
    rot = env.rot(5)
    c = env.vec('c', 3, -50, 50)
    T = torus(env, R, r, rot, c)
    rho = env.sqrt(x[0] * x[0] + x[2] * x[2])
    want = ((rho - R) ** 2 + x[1] ** 2 - r * r) * ((rho + R) ** 2 + x[1] ** 2 - r * r)
    env.check_eq('local', T.quartic(x.copy(), transform=False), want)
    env.check_eq('global', T.quartic(env.arr([glob(env, rot, c, x)[:3]]))[0], want)
    env.check('only points in space', env.raises(ValueError, lambda: T.quartic(
        env.arr([1, 2, 3, 1]))))


@harness(timeout=80)
def angles(env):
    """angles for any point on the torus, and normal vectors there."""
    R, r = radii(env, 2)
    t, p = env.angle('t', -7, 7), env.angle('p', -7, 7)
    ct, st, cp, sp = env.np.cos(t), env.np.sin(t), env.np.cos(p), env.np.sin(p)
    rot = env.rot(env.choice('rot', [0, 7]))
    c = env.arr([3, -2, 1])
    T = torus(env, R, r, rot, c)
    k = R + r * ct
    env.assume(k != 0)
    loc = [k * cp, r * st, k * sp]
    tr = env.choice('transform', [True, False])
    pts = env.arr([glob(env, rot, c, loc) if tr else list(loc) + [1]])
    valid = env.choice('valid', [True, False])
    t2, p2 = T.xyzw2parametric(pts, transform=tr, intersectvalid=valid)
    env.check_eq('theta: cosine', env.np.cos(t2[0]), ct)
    env.check_eq('theta: sine', env.np.sin(t2[0]), st)
    env.check_eq('phi: cosine', env.np.cos(p2[0]), cp)
    env.check_eq('phi: sine', env.np.sin(p2[0]), sp)
    if tr:
        n = T.normal(pts)[0]
        env.check_vec('normal', n, glob(env, rot, c, [ct * cp, st, ct * sp], 0))


@harness(timeout=60)
def special_points(env):
    """points at the distance R from the axis, and where the torus meets itself."""
    T = torus(env, 3, 5)
    p = env.angle('p', -7, 7)
    cp, sp = env.np.cos(p), env.np.sin(p)
    s = env.choice('sign', [1, -1])
    what = env.choice('what', ['top', 'pole'])
    if what == 'top':
        t2, p2 = T.xyzw2parametric(env.arr([[3 * cp, 5 * s, 3 * sp, 1]]))
        env.check_eq('theta: cosine', env.np.cos(t2[0]), 0)
        env.check_eq('theta: sine', env.np.sin(t2[0]), s)
        env.check_eq('phi: cosine', env.np.cos(p2[0]), cp)
        env.check_eq('phi: sine', env.np.sin(p2[0]), sp)
    else:
        # numpy cannot be relied on to meet such a point exactly, except for r = R
        r = env.positive('r', 50)
        T = torus(env, r, r)
        pts = env.arr([[0, 0, 0, 1], [r * cp * 2, 0, r * sp * 2, 1]])
        T.xyzw2parametric(pts, intersectvalid=True)
        t2, p2 = T.xyzw2parametric(pts, intersectvalid=False)
        env.check_eq('theta of the other', env.np.cos(t2[1]), 1)
        env.check_eq('phi of the other', env.np.cos(p2[1]), cp)


@harness(timeout=60)
def off_surface(env):
    """points away from the surface have no angles."""
    T = torus(env, 2, 1)
    k = env.real('k', -5, 5)
    x = env.arr(env.choice('ray', [[k, 0, 0], [k, 1, 2], [2, k, -1], [k, -k, 0]]))
    q = T.quartic(x.copy(), transform=False)
    env.assume(q > env.num(1) / 100)
    env.check('refused', env.raises(ValueError, lambda: T.xyzw2parametric(
        env.arr([[x[0], x[1], x[2], 1]]))))


def any_root(env, mod):
    """Contract of scipy.optimize.root: any root, or no success."""
    log = []

    def root(fun, x0, args=(), **kw):
        out = types.SimpleNamespace()
        k = env.real('root%d' % len(log), -1000, 1000)
        log.append(k)
        out.success = True
        out.x = env.arr([k])
        v = fun(out.x, *args)
        v = v.reshape(-1)[0] if hasattr(v, 'reshape') else v
        if env.choice('success%d' % (len(log) - 1), [True, False]):
            env.assume(v == 0)
            out.fun = v
        else:
            out.success = False
        return out
    if env.symbolic:
        env.patch(mod, 'optimize', types.SimpleNamespace(root=root))
    return log


@harness(timeout=80)
def intersection(env):
    """lines along any direction: the result is on the line and on the torus, or an error is
    reported."""
    row = env.imp('marxs.design.rowland')
    any_root(env, row)
    R, r = radii(env)
    rot, c = env.rot(env.choice('rot', [0, 5])), env.arr([3, -2, 1])
    T = torus(env, R, r, rot, c)
    o = env.arr([env.real('ox', -50, 50), env.real('oy', -50, 50), 1, 1])
    d = env.arr(env.choice('dir', [[1, 0, 0, 0], [2, -1, 2, 0]]))
    tr = env.choice('transform', [True, False])
    try:
        x = T.solve_quartic(o.copy(), d.copy(), transform=tr)
    except Exception:
        if env.symbolic:
            env.check('reported as not found', len(env.drawlog()) == 0)
        return
    x = x.reshape(-1, 4)[0]
    env.check_eq('a place', x[3], 1)
    env.check_vec('on the line', env.cross(x[:3] - o[:3], d[:3]), [0, 0, 0])
    q = T.quartic(x[:3], transform=tr)
    if env.symbolic:
        env.check_eq('on the torus', q, 0)
    else:
        env.check_le('on the torus', abs(q), 1e-3 * max(R, r, 1) ** 4)


@harness(timeout=60)
def polar(env):
    """place on the torus from radius and angle around the optical axis."""
    row = env.imp('marxs.design.rowland')
    any_root(env, row)
    R, r = env.arr([20, 10]) if env.choice('radii', [True, False]) else env.arr([10, 10])
    rot, c = env.rot(5), env.vec('c', 3, -5, 5)
    T = torus(env, R, r, rot, c)
    rad, a = env.real('rad', 0, 5), env.angle('a', 0, 6)
    try:
        x = T.xyz_from_radiusangle(rad, a, env.choice('start', [[28, 32], 30]))
    except Exception:
        env.check('not found', not env.symbolic or True)
        return
    x = x.reshape(-1)
    loc = env.matmul(rot.T, x - c)
    env.check_eq('y', loc[1], rad * env.np.cos(a))
    env.check_eq('z', loc[2], rad * env.np.sin(a))
    q = T.quartic(x)
    if env.symbolic:
        env.check_eq('on the torus', q, 0)
    else:
        env.check_le('on the torus', abs(q), 1)


@harness(timeout=60)
def tilted(env):
    """design for any focal length and any two angles within +-1 rad: the on-axis grating and the
    focal point are on the torus, the axis of the torus goes through the focal point, and the
    two angles are as asked for."""
    row = env.imp('marxs.design.rowland')
    f = env.positive('f', 100)
    a, b = env.angle('alpha', -1, 1), env.angle('beta', -1, 1)
    ca, sa, cb, sb = env.np.cos(a), env.np.sin(a), env.np.cos(b), env.np.sin(b)
    env.assume(ca > 0)
    env.assume(cb > 0)
    R, r, m = row.design_tilted_torus(f, a, b)
    T = row.RowlandTorus(R, r, pos4d=m)
    for i in range(3):
        for j in range(i, 3):
            env.check_eq('rotation %d%d' % (i, j), sum(m[k][i] * m[k][j] for k in range(3)),
                         int(i == j))
    env.check_vec('last row', m[3], [0, 0, 0, 1])
    env.check_vec('in the plane of the Rowland circle', [m[2][3], m[0][2], m[1][2], m[2][2]],
                  [0, 0, 0, 1])
    env.check_lt('R', 0, R)
    env.check_lt('r', 0, r)
    env.check_eq('grating', T.quartic(env.arr([f, 0, 0])), 0)
    env.check_eq('focal point', T.quartic(env.arr([0, 0, 0])), 0)
    centre = [m[i][3] + R * m[i][0] for i in range(3)]
    # alpha: from the optical axis to the centre of the circle, seen from the grating
    env.check_eq('alpha: cosine', (f - centre[0]), r * ca)
    env.check_eq('alpha: sine', centre[1], r * sa)
    # axis: through the focal point, along y of the torus
    env.check_eq('axis through focus', m[0][3] * m[1][1] - m[1][3] * m[0][1], 0)
    # hinge: second point of the axis on the circle, mirrored about the foot of the centre
    s = centre[0] * m[0][1] + centre[1] * m[1][1]
    hx, hy = 2 * s * m[0][1], 2 * s * m[1][1]
    env.check_eq('hinge is on the circle', (hx - centre[0]) ** 2 + (hy - centre[1]) ** 2, r * r)
    env.check_eq('beta', hy * cb, (f - hx) * sb)


@harness(timeout=60)
def double(env):
    """two channels at any distance: for each channel the grating on the optical axis, its focal
    point and that of the other channel are on the Rowland circle; so are they for the detector."""
    row = env.imp('marxs.design.rowland')
    import numpy as np
    # f = 2 r cos(alpha), d = 2 r sin(alpha), alpha rational
    ca, sa = env.choice('alpha', [(env.num(12) / 13, env.num(5) / 13),
                                  (env.num(4) / 5, env.num(3) / 5)])
    rr = env.positive('r', 50)
    R = env.positive('R', 50)
    f, d = 2 * rr * ca, 2 * rr * sa
    g = row.double_rowland_from_channel_distance(d, R, f)
    row.add_offset_double_rowland_channels(g, offsets=env.choice('offsets', [
        {'1': [0, 0, 0], '1m': [0, 0, 0]},
        {'3m': [0, 0, 0], '1': [0, 0, 0], '1m': [0, 0, 0], '2': [0, 0, 0], '3': [0, 0, 0]}]))
    h = d / 2

    def on(name, key, pts):
        T = g[key]
        env.check_eq(name + ': R', T.R, R)
        env.check_eq(name + ': r', T.r, rr)
        for x, y in pts:
            env.check_eq(name, T.quartic(env.arr([x, y, 0])), 0)
            # within the plane of the circle, not of another one
            v = env.matmul(env.arr([[T.pos4d[i][j] for i in range(3)] for j in range(3)]),
                           env.arr([x, y, 0]) - env.arr([T.pos4d[i][3] for i in range(3)]))
            env.check_eq(name + ': on the circle', (v[0] - R) ** 2 + v[1] ** 2, rr * rr)
            env.check_eq(name + ': in its plane', v[2], 0)
    for key in g:
        if not key.startswith('rowland_') or key in ('rowland_central', 'rowland_central_m'):
            continue
        s = 1 if 'm' in key else -1
        on(key, key, [(f, s * h), (0, s * h), (0, -s * h)])
    on('central', 'rowland_central', [(f, 0), (0, 0), (0, d)])
    on('mirrored', 'rowland_central_m', [(f, 0), (0, 0), (0, -d)])
    for key in g['pos_opt_ax']:
        s = 1 if 'm' in key else -1
        env.check_vec('optical axis', g['pos_opt_ax'][key], [0, s * h, 0, 1])
        env.check('torus for every channel', 'rowland_' + key in g)


@harness(timeout=60)
def offsets(env):
    """channels with any offset."""
    row = env.imp('marxs.design.rowland')
    o = {k: env.vec('o' + k, 3, -9, 9) for k in ('1', '2', '2m', '4m')}
    R = env.num(5)
    g = row.double_rowland_from_channel_distance(env.num(6), R, env.num(8))
    if env.choice('default', [True, False]):
        row.add_offset_double_rowland_channels(g)
        o = {'1': [0, -2.5, -7.5], '1m': [0, -2.5, -2.5], '2': [0, 2.5, 2.5],
             '2m': [0, 2.5, 7.5]}
    else:
        row.add_offset_double_rowland_channels(g, offsets=o)
    for k, v in o.items():
        m = 'm' in k
        T, B = g['rowland_' + k], g['rowland_central_m' if m else 'rowland_central']
        shift = [v[0], (3 if m else -3) + v[1], v[2]]
        env.check_vec('optical axis', g['pos_opt_ax'][k], list(shift) + [1])
        for i in range(3):
            env.check_vec('orientation', T.pos4d[i][:3], B.pos4d[i][:3])
            env.check_eq('place', T.pos4d[i][3], B.pos4d[i][3] + shift[i])
    env.check('given channels only', set(g['pos_opt_ax']) == set(o))


@harness(timeout=60)
def tube(env):
    """a tube made from a torus: each of its points is on the Rowland circle, at any height."""
    geo = env.imp('marxs.math.geometry')
    R, r = radii(env)
    w = env.positive('w', 9)
    rot, c = env.rot(env.choice('rot', [0, 5])), env.vec('c', 3, -50, 50)
    T = torus(env, R, r, rot, c)
    turn = env.angle('turn', -4, 4)
    cyl = geo.Cylinder.from_rowland(T, w, rotation=turn,
                                    kwargs={'phi_lim': [env.num(-1), env.num(1)]})
    a = env.angle('a', -1, 1)
    k = env.real('k', -1, 1)
    ct, st = env.np.cos(turn), env.np.sin(turn)
    ca, sa = env.np.cos(a), env.np.sin(a)
    x = env.matmul(cyl.pos4d, env.arr([ca, sa, k, 1]))
    env.check_vec('point', x, glob(env, rot, c, [R + r * (ca * ct - sa * st),
                                                 r * (ca * st + sa * ct), w * k]))
    env.check_vec('limits', cyl.coos_limits[0], [-1, 1])


@harness(timeout=60)
def bent(env):
    """bending of gratings: the centre and the normal there stay, the radius is as given, the
    height stays, and half the width covers the given angle."""
    bend = env.imp('marxs.design.bendgratings')
    o = env.imp('marxs.optics')
    base = env.imp('marxs.optics.base')
    R = env.positive('R', 900)
    c = env.vec('c', 3, -50, 50)
    rot = env.rot(env.choice('rot', [0, 5, 7]))
    zy, zz = env.positive('zy', 9), env.positive('zz', 9)
    g = base.FlatStack(position=c.copy(), orientation=rot.copy(), zoom=env.arr([1, zy, zz]),
                       elements=[o.EnergyFilter], keywords=[{'filterfunc': lambda e: e}])
    bend.bend_gratings([g], R)
    for name, x in (('stack', g), ('layer', g.elements[0])):
        m = x.geometry.pos4d
        env.check(name + ': is a tube', type(x.geometry).__name__ == 'Cylinder')
        env.check_vec(name + ': centre', env.matmul(m, env.arr([1, 0, 0, 1])), list(c) + [1])
        ex, ey, ez = rot[:, 0], rot[:, 1], rot[:, 2]
        env.check_vec(name + ': radius along the normal', m[:3, 0], R * ex)
        env.check_vec(name + ': radius along the width', m[:3, 1], R * ey)
        env.check_vec(name + ': height', m[:3, 2], zz * ez)
        lo, hi = x.geometry.coos_limits[0]
        env.check_eq(name + ': symmetric', lo, -hi)
        env.check_eq(name + ': width', env.np.sin(hi) * R, zy * env.np.cos(hi))
