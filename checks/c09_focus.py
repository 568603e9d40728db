"""Ideal lenses focus, thin lenses bend, mirrors reflect."""
from symx.worker import registry
from .elements import Frame, snapshot, DATA
from .c05_missed import miss_row
from .c06_unit import ndir
import os

HARNESSES, harness = registry()
ASSUMPTIONS = ['Incoming directions are unit vectors.']


def beam(env, fr, starts, d, q=(1, 2, 3), energy=None, miss=()):
    """parallel beam; rows in `miss` are replaced by photons that miss."""
    d = env.arr(list(d))
    pol = env.cross(d, env.arr(list(q)))
    rows = [miss_row(0) if i in miss else (s, d) for i, s in enumerate(starts)]
    n = len(rows)
    return env.photons(n, env.arr([fr.pos(s) for s, _ in rows]),
                       env.arr([fr.dir(x) for _, x in rows]),
                       env.arr(energy if energy is not None else [1] * n),
                       env.arr([fr.dir(pol)] * n), env.arr([1] * n))


def towards(env, name, pos, dir, f, sign=1):
    """The ray from pos along dir passes through f."""
    v = env.arr([a - b for a, b in zip(f[:3], pos[:3])])
    env.check_vec(name + ': passes through the focus', env.cross(v, dir[:3]), [0, 0, 0])
    env.check_lt(name + ': the focus is ahead', 0, sign * env.dot(v, dir[:3]))


def _lens(mode):
    def f(env):
        o = env.imp('marxs.optics.mirror')
        F = env.real('f', 10, 1000) if mode != 'two' else env.num(125)
        off = env.real('off', -50, 50) if mode != 'direction' else None
        if mode == 'direction':
            fr = Frame(env, 0, c=(0, 0, 0), zoom=(1, 1000, 1000))
            t = env.unit('d', 2)
            d = env.arr([-t[1], t[0] * 3 / 5, t[0] * 4 / 5])
            env.assume(t[1] > env.num(1) / 10)
            off = env.real('off', -50, 50)
            hits = [[0, env.real('y', -20, 20), 2]]
        else:
            fr = Frame(env, 6 if mode == 'back' else 5, zoom=(1, 30, 40))
            d = ndir(env, 0)
            if mode == 'back':
                d = -d
            y, z = env.real('y', -20, 20), env.real('z', -20, 20)
            if mode == 'two':
                off = env.num(-5)
                hits = [[0, y, 3], None, [0, 4, z]]
            else:
                hits = [None, [0, y, z]] if mode == 'place' else [[0, y, 2]]
        starts = [[0, 0, 0] if h is None else [a - 7 * b for a, b in zip(h, d)] for h in hits]
        el = o.PerfectLens(focallength=F, d_center_optical_axis=off, **fr.kwargs())
        ph = beam(env, fr, starts, d, miss=[i for i, h in enumerate(hits) if h is None])
        ds = [d] * len(hits)
        if mode == 'two':      # the other ray belongs to another beam
            ds[2] = ndir(env, 2)
            ph['dir'][2] = fr.dir(ds[2])
            ph['pos'][2] = fr.pos([a - 7 * b for a, b in zip(hits[2], ds[2])])
            ph['polarization'][2] = fr.dir(env.cross(ds[2], env.arr([1, 2, 3])))
        before = snapshot(ph)
        # leave out rays that are deflected by less than 1e-3 rad or so
        focus = [fr.pos([F * d[0], F * d[1], F * d[2] - off]) for d in ds]
        for h, d in zip(hits, ds):
            if h is not None:
                v = [F * d[0], F * d[1] - h[1], F * d[2] - off - h[2]]
                env.assume(env.norm2(env.cross(v, d)) > env.num(1) / 100)
        out = el(ph)
        for i, h in enumerate(hits):
            if h is None:
                env.check_vec('photon %d missed' % i, out['dir'].data[i], before['dir'][i])
                continue
            env.check_vec('photon %d is on the lens' % i, out['pos'].data[i], fr.pos(h))
            towards(env, 'photon %d' % i, fr.pos(h), out['dir'].data[i], focus[i])
            env.check_unit('photon %d: unit' % i, out['dir'].data[i])
    f.__name__ = 'lens_' + mode
    f.__doc__ = ('ideal lens: '
                 + {'direction': 'focal length 10-1000 mm, axis up to 50 mm off, ray from any direction in a plane, at any place along a line',
                    'place': 'focal length 10-1000 mm, axis up to 50 mm off, one ray anywhere on '
                    'the lens and one that misses', 'two': 'two rays of different beams along two lines and one that '
                    'misses', 'back': 'focal length 10-1000 mm, axis up to 50 mm off, ray from '
                    'behind'}[mode])
    return f


for _m in ('direction', 'place', 'back', 'two'):
    harness(timeout=100)(_lens(_m))


@harness(timeout=80)
def lens_reflectivity(env):
    """two reflections: the squared reflectivity at the energy and a quarter of the deflection."""
    o = env.imp('marxs.optics.mirror')
    fr = Frame(env, 5, zoom=(1, 30, 40))
    d = ndir(env, 0)
    z0, z1 = env.real('z0', -20, 20), env.real('z1', 5, 20)
    r = env.func('refl', 0, 1)
    seen = []

    def refl(e, a, grid=True):
        env.check('the table is asked point by point', grid is False)
        seen.extend(zip(list(e), list(a)))
        return r(e, a)
    el = o.PerfectLens(focallength=100, reflectivity_interpolator=refl, **fr.kwargs())
    en = [env.positive('e%d' % i, 10) for i in range(3)]
    hits = [[0, 1, z0], None, [0, 3, z1]]
    starts = [[0, 0, 0] if h is None else [a - 7 * b for a, b in zip(h, d)] for h in hits]
    ph = beam(env, fr, starts, d, energy=en, miss=[1])
    before = snapshot(ph)
    out = el(ph)
    env.check('one lookup per hit', len(seen) == 2)
    for k, i in enumerate((0, 2)):
        e, a = seen[k]
        env.check_eq('energy', e, en[i])
        env.check_eq('angle', env.cos(4 * a), env.dot(out['dir'].data[i], before['dir'][i]))
        env.check_le('angle is not negative', 0, a)
        env.check_eq('probability', out['probability'].data[i], r(e, a) * r(e, a))
    env.check_eq('probability of the other', out['probability'].data[1], 1)


def _thin(rot, mode):
    def f(env):
        o = env.imp('marxs.optics.mirror')
        fr = Frame(env, rot, zoom=(1, 30, 40))
        d = ndir(env, 0)
        P = env.real('power', env.num(1) / 1000, env.num(1) / 10)
        F = 1 / P
        a, b = (3, 4) if mode == 'line' else (0, 1)
        s = env.real('s', -4, 4)
        h = [0, a * s, b * s]
        env.assume(env.or_(s > env.num(1) / 100, s < -env.num(1) / 100))
        starts = [[x - 7 * y for x, y in zip(h, d)], [0, 0, 0], [-7 * x for x in d]]
        el = o.ThinLens(focallength=F, **fr.kwargs())
        ph = beam(env, fr, starts, d, miss=[1])
        before = snapshot(ph)
        out = el(ph)
        dist = (5 if mode == 'line' else 1) * (s if s > 0 else -s)
        dg, new = before['dir'][0][:3], out['dir'].data[0][:3]
        v = fr.dir(h)[:3]
        n = env.cross(dg, v)
        env.check_unit('unit', new)
        env.check_eq('stays in the plane of the ray and the centre', env.dot(new, n), 0)
        ang = -dist * P
        env.check_eq('deflection is distance / focal length', env.dot(new, dg), env.cos(ang))
        # part of v perpendicular to d
        w = v - env.dot(v, dg) * dg
        w2 = env.norm2(w)
        c = env.dot(new, w)
        env.check_eq('size of the deflection', c * c, env.sin(ang) * env.sin(ang) * w2)
        env.check('towards the axis', c * env.sin(ang) >= 0)
        env.check_vec('missed', out['dir'].data[1], before['dir'][1])
        env.check_vec('ray through the centre goes straight on', out['dir'].data[2],
                      before['dir'][2])
        env.check_vec('is on the lens', out['pos'].data[0], fr.pos(h))
    f.__name__ = 'thin_%s_%d' % (mode, rot)
    f.__doc__ = ('thin lens, any focal length 10-1000 mm, ray anywhere on a line through the '
                 'centre, one that misses and one through the centre, orientation %d' % rot)
    return f


harness(timeout=80)(_thin(5, 'line'))
harness(timeout=80)(_thin(6, 'axis'))


def _mirror(kind, rot):
    def f(env):
        o = env.imp('marxs.optics.multiLayerMirror')
        fr = Frame(env, rot, zoom=(1, 10, 20))
        k = env.choice('side', [0, 1])
        d = ndir(env, 0) if k == 0 else -ndir(env, 2)
        y, z = env.real('y', -5, 5), env.real('z', -5, 5)
        h = [0, y, z]
        if kind == 'brewster':
            el = o.FlatBrewsterMirror(**fr.kwargs())
        else:
            el = o.MultiLayerMirror(reflFile=os.path.join(DATA, 'refl.txt'),
                                    testedPolarization=os.path.join(DATA, 'pol.txt'),
                                    **fr.kwargs())
        q = env.vec('q', 3, -1, 1)
        pol = env.cross(d, q)
        s = env.cross(d, env.arr([1, 0, 0]))
        p2 = env.norm2(pol)
        env.assume(p2 <= 1)
        sp = env.dot(pol, s)
        env.assume(sp > env.num(1) / 1000)
        starts = [[a - 7 * b for a, b in zip(h, d)], [0, 0, 0]]
        ph = beam(env, fr, starts, d, q=q, miss=[1],
                  energy=[env.num(1.23984282) / 4, 1] if kind != 'brewster' else None)
        before = snapshot(ph)
        out = el(ph)
        env.check_vec('mirrored direction', out['dir'].data[0], fr.dir([-d[0], d[1], d[2]]))
        env.check_vec('is on the mirror', out['pos'].data[0], fr.pos(h))
        if kind == 'brewster':
            env.check_eq('reflected fraction', out['probability'].data[0] * env.norm2(s), sp * sp)
        env.check_vec('missed', out['dir'].data[1], before['dir'][1])
    f.__name__ = '%s_%d' % (kind, rot)
    f.__doc__ = ('%s mirror, any place, both sides, any polarization with some component that is '
                 'reflected, orientation %d' % (kind, rot))
    return f


harness(timeout=80)(_mirror('brewster', 5))
harness(timeout=80)(_mirror('brewster', 6))
harness(timeout=80)(_mirror('multilayer', 5))
