"""Apertures distribute photons evenly over their area."""
from symx.worker import registry
from .elements import Frame, row_unchanged, snapshot

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'numpy.random.rand/random/uniform return independent evenly distributed numbers: decided is '
    'that the position is the area-preserving map of two such numbers that are used for nothing '
    'else. numpy.random.shuffle is an arbitrary permutation.',
    'Apertures have one of the listed rational orientations (the placement itself is decided in '
    'C01); outlines that touch or overlap are outside.',
]


def plist(env, n, dirs, before=True):
    from astropy.table import Table, Column
    ph = env.photons(n, env.arr([[9, 9, 9, 1]] * n), env.arr(dirs),
                     env.arr([env.real('E%d' % i, 1, 3) for i in range(n)]),
                     env.arr([[0, 0, 1, 0]] * n),
                     env.arr([env.real('w%d' % i, 0, 1) for i in range(n)]))
    if not before:
        ph.remove_column('pos')
    return ph


def local(env, fr, p):
    """Local coordinates of a global position."""
    d = [p[k] - fr.c[k] for k in range(3)]
    return [env.dot([fr.R[k][j] for k in range(3)], d) for j in range(3)]


def judge(env, i, fr, before, out, flux=True):
    """What does not depend on the kind of aperture; returns the local position."""
    row_unchanged(env, 'photon %d' % i, before, out, i, ('pos', 'probability'))
    p = out['pos'].data[i]
    env.check_eq('position is a position %d' % i, p[3], 1)
    x = local(env, fr, p)
    env.check_eq('on the aperture %d' % i, x[0], 0)
    d = local(env, fr, [before['dir'][i][k] + fr.c[k] for k in range(3)])
    c = -d[0]
    want = before['probability'][i] * c if c > 0 else env.num(0)
    env.check_eq('probability follows the projected area %d' % i, out['probability'].data[i],
                 want)
    return x


def _rect(k):
    def f(env):
        o = env.imp('marxs.optics.aperture')
        zy, zz = env.positive('zy', 9), env.positive('zz', 9)
        fr = Frame(env, k, zoom=(1, zy, zz))
        el = o.RectangleAperture(id_col='gate', id_num=4, **fr.kwargs())
        env.check_eq('area', el.area.to_value('mm2'), 4 * zy * zz)
        d = env.unit('d', 2)
        n = 2
        ph = plist(env, n, [fr.dir([d[0], d[1], 0]), fr.dir([d[0] * 3 / 5, d[1], d[0] * 4 / 5])],
                   env.choice('pos_exists', [True, False]))
        before = snapshot(ph)
        out = el(ph)
        used = set()
        for i in range(n):
            x = judge(env, i, fr, before, out)
            env.drawn('y evenly over the width %d' % i, [x[1]], lambda v: [(2 * v - 1) * zy], used)
            env.drawn('z evenly over the height %d' % i, [x[2]], lambda v: [(2 * v - 1) * zz],
                      used)
            env.check('id %d' % i, out['gate'][i] == 4)
    f.__name__ = 'rectangle_%d' % k
    f.__doc__ = ('two photons, any size, any direction in a plane (from the front, the back or '
                 'along the aperture), orientation %d' % k)
    return f


for _k in (0, 5):
    harness(timeout=60)(_rect(_k))


def disk(env, i, x, R, phi, r_in, used):
    """local position x is evenly distributed over the ring segment."""
    r2 = x[1] * x[1] + x[2] * x[2]
    r_in2, R2 = r_in * r_in, R * R
    env.drawn('square of the radius evenly %d' % i, [r2], lambda v: [r_in2 + (R2 - r_in2) * v],
              used)
    r = env.sqrt(r2)
    env.drawn('angle evenly over the segment %d' % i, [x[1], x[2]],
              lambda v: [r * env.cos(phi[0] + (phi[1] - phi[0]) * v),
                         r * env.sin(phi[0] + (phi[1] - phi[0]) * v)], used)


def _circle(kind, n):
    def f(env):
        o = env.imp('marxs.optics.aperture')
        R = env.real('R', 1, 9)
        fr = Frame(env, 5, zoom=(1, R, R))
        kw = fr.kwargs()
        phi, r_in = [env.num(0), 2 * env.num(3.141592653589793)], env.num(0)
        if 'segment' in kind:
            phi = [env.real('phi0', -7, 7), env.real('phi1', -7, 7)]
            env.assume(phi[1] > phi[0])
            env.assume(phi[1] <= phi[0] + 2 * env.PI)
            kw['phi'] = phi
        if 'ring' in kind:
            r_in = env.real('r_in', 0, 9)
            env.assume(r_in < R)
            kw['r_inner'] = r_in
        el = o.CircleAperture(**kw)
        env.check_eq('area', el.area.to_value('mm2'), (phi[1] - phi[0]) / 2 * (R * R - r_in * r_in))
        d = env.unit('d', 2)
        ph = plist(env, n, [fr.dir([d[0], d[1], 0]),
                            fr.dir([d[0] * 3 / 5, d[1], d[0] * 4 / 5])][:n])
        before = snapshot(ph)
        out = el(ph)
        used = set()
        for i in range(n):
            x = judge(env, i, fr, before, out)
            disk(env, i, x, R, phi, r_in, used)
    f.__name__ = 'circle_' + kind
    f.__doc__ = '%s, any radii and angles, %d photons' % (kind, n)
    return f


harness(timeout=60)(_circle('full', 2))
harness(timeout=60)(_circle('ring', 2))
harness(timeout=60)(_circle('segment', 1))
harness(timeout=60)(_circle('ring_segment', 1))


@harness(timeout=60)
def circle_refused(env):
    """inner radius larger than the outer one, ellipses and impossible angles are refused."""
    o = env.imp('marxs.optics.aperture')
    b = env.imp('marxs.base')
    R, Rz = env.real('R', 1, 9), env.real('Rz', 1, 9)
    r_in = env.real('r_in', 0, 9)
    phi = [env.real('phi0', -7, 7), env.real('phi1', -7, 7)]
    what = env.choice('what', ['radius', 'ellipse', 'angle'])
    try:
        if what == 'radius':
            o.CircleAperture(zoom=env.arr([1, R, R]), r_inner=r_in)
        elif what == 'ellipse':
            o.CircleAperture(zoom=env.arr([1, R, Rz]))
        else:
            o.CircleAperture(zoom=2, phi=phi)
        ok = True
    except (ValueError, b.GeometryError):
        ok = False
    if what == 'radius':
        env.check('inner radius', env.eq(r_in, R) if r_in == R else (r_in < R if ok else r_in > R))
    elif what == 'ellipse':
        if ok:
            env.check_near('circle', R, Rz, R / 1000)
        else:
            env.check('not a circle', env.not_(env.eq(R, Rz)))
    else:
        w = phi[1] - phi[0]
        if ok:
            env.check('sensible angles', env.and_(w >= 0, w <= 2 * env.PI + env.num(1) / 1000))
        else:
            env.check('bad angles', env.or_(w < 0, w > 2 * env.PI))


def _multi(n):
    def f(env):
        o = env.imp('marxs.optics.aperture')
        R = env.real('R', 1, 4)
        zy = env.real('zy', 1, 4)
        frs = [Frame(env, 5, c=(0, 0, 50), zoom=(1, zy, 2)),
               Frame(env, 0, c=(0, 0, -50), zoom=(1, R, R)),
               Frame(env, 6, c=(0, 50, 0), zoom=(1, 1, 1))]
        els = [o.RectangleAperture(**frs[0].kwargs()),
               o.CircleAperture(phi=[env.num(0), env.num(1)], **frs[1].kwargs()),
               o.RectangleAperture(**frs[2].kwargs())]
        areas = [8 * zy, R * R / 2, env.num(4)]
        tot = areas[0] + areas[1] + areas[2]
        off = env.choice('offset', [0, 7])
        el = o.MultiAperture(elements=els, id_num_offset=off,
                             **({} if off == 0 else {'id_col': 'gate'}))
        col = 'aperture' if off == 0 else 'gate'
        env.check_eq('total area', el.area.to_value('mm2'), tot)
        ph = plist(env, n, [env.arr([-1, 0, 0, 0])] * n, env.choice('pos_exists', [True, False]))
        before = snapshot(ph)
        out = el(ph)
        used = set()
        count = [0, 0, 0]
        for i in range(n):
            k = int(out[col][i]) - off
            env.check('goes through one of them %d' % i, k in (0, 1, 2))
            if k not in (0, 1, 2):
                continue
            count[k] += 1
            x = judge(env, i, frs[k], before, out)
            if k == 1:
                disk(env, i, x, R, [env.num(0), env.num(1)], env.num(0), used)
            else:
                sy, sz = (zy, 2) if k == 0 else (1, 1)
                env.drawn('y evenly %d' % i, [x[1]], lambda v: [(2 * v - 1) * sy], used)
                env.drawn('z evenly %d' % i, [x[2]], lambda v: [(2 * v - 1) * sz], used)
        sel = [d for i, d in enumerate(env.draws('rand', 'random', 'uniform')) if i not in used]
        env.check('one more number per photon', len(sel) == n)
        # as many numbers in the interval of an aperture as photons that go through it
        lo = env.num(0)
        if n == 1:
            k = count.index(1) if 1 in count else 0
            for j in range(k):
                lo = lo + areas[j]
            env.check_le('chosen by area (lower)', lo, sel[0] * tot)
            env.check_le('chosen by area (upper)', sel[0] * tot, lo + areas[k])
        else:
            want = [0, 0, 0]
            for s in sel:
                k = 0 if s * tot < areas[0] else 1 if s * tot < areas[0] + areas[1] else 2
                want[k] += 1
            env.check('chosen in proportion to the area', want == count)
    f.__name__ = 'multi_%d' % n
    f.__doc__ = 'three apertures (rectangle, circle segment, rectangle) of any size, %d photons' % n
    return f


harness(timeout=60)(_multi(1))
harness(timeout=80, max_paths=1500)(_multi(2))
