"""Photons that do not hit an element are left alone; photons that hit are moved onto it."""
from symx.worker import registry
from .elements import ELEMENTS, Frame, rect_hit, row_unchanged, snapshot, b_cylinder

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Photon lists with one fully symbolic photon (start point within +-30, direction within the '
    'ranges stated per harness) between two photons that miss for sure; elements have a fixed '
    'rational placement (the intersection itself is decided for symbolic placements elsewhere).',
    'The element is one of those listed; filter curves are arbitrary functions with values in '
    '[0, 1], random draws are free.',
]


def photon_list(env, fr, rows, extra=True):
    pos = env.arr([fr.pos(u) for u, d in rows])
    dirs = env.arr([fr.dir(d) for u, d in rows])
    n = len(rows)
    pol = []
    for k, (u, d) in enumerate(rows):
        d = env.arr(list(d))
        p = env.cross(d, env.arr([0, 1, 0]) if k != 1 else env.arr([1, 2, 2]))
        pol.append(fr.dir(p / 4))
    en = [env.real('E%d' % k, 0.25, 8) for k in range(n)]
    pr = [env.real('w%d' % k, 0, 1) for k in range(n)]
    ph = env.photons(n, pos, dirs, env.arr(en), env.arr(pol), env.arr(pr),
                     {'tag': env.arr([env.real('tag%d' % k) for k in range(n)])})
    ph['event'] = [11, 22, 33][:n]
    return ph


def judge(env, name, el, ph, before, hits, ts, fr, rows, moved=True):
    new = [c for c in ph.colnames if c not in before]
    for i, hit in enumerate(hits):
        if not hit:
            skip = ('probability',) if name == 'baffle' else ()
            row_unchanged(env, 'photon %d missed' % i, before, ph, i, skip)
            if name == 'baffle':
                env.check_eq('photon %d missed the hole and is absorbed' % i,
                             ph['probability'].data[i], 0)
            for c in new:
                v = ph[c].data[i]
                if c == el.id_col:
                    env.check('photon %d missed: no element id' % i, v == -1)
                else:
                    env.check('photon %d missed: %s stays unset' % (i, c), env.isnan(v))
        else:
            u, d = rows[i]
            p = fr.pos(env.arr(list(u)) + ts[i] * env.arr(list(d)))
            env.check_vec('photon %d hits: moved to the intersection' % i,
                          ph['pos'].data[i], p)
            for c in ('tag', 'event') + (() if name == 'loop' else ('energy',)):
                env.check_eq('photon %d hits: %s is kept' % (i, c), ph[c].data[i], before[c][i])
            if el.id_col is not None:
                env.check('photon %d hits: element id' % i, ph[el.id_col].data[i] == el.id_num)
            lc = el.loc_coos_name
            if name != 'baffle' and lc is not None:
                env.check_eq('photon %d hits: local coordinate 1' % i, ph[lc[0]].data[i],
                             u[1] + ts[i] * d[1])
                env.check_eq('photon %d hits: local coordinate 2' % i, ph[lc[1]].data[i],
                             u[2] + ts[i] * d[2])
            if name in ('filter', 'filter_id', 'detector', 'multilayer', 'baffle', 'stack'):
                env.check_vec('photon %d hits: direction is kept' % i, ph['dir'].data[i],
                              before['dir'][i])
                env.check_vec('photon %d hits: polarization is kept' % i,
                              ph['polarization'].data[i], before['polarization'][i])
            if name == 'loop':
                env.check_vec('photon %d: own direction' % i, ph['dir'].data[i],
                              -before['dir'][i])
                env.check_eq('photon %d: own energy' % i, ph['energy'].data[i],
                             2 * before['energy'][i])
                env.check_eq('photon %d: own extra column' % i, ph['extra'].data[i],
                             3 * before['energy'][i]) if 'extra' in new else None
            if name == 'baffle':
                env.check_eq('photon %d passes the hole' % i, ph['probability'].data[i],
                             before['probability'][i])


def miss_row(k):
    return [((5, 40, 1), (-1, 0, 0)), ((2, 0, 0), (1, 0, 0))][k]


def direction(env, mode):
    if mode == 'axis':
        return env.arr([-1, 0, 0])
    if mode == 'oblique':
        n = env.num
        return env.arr([n(-6) / 7, n(2) / 7, n(3) / 7])
    return env.unit('d')


def _miss(name, mode, rot):
    def f(env):
        fr = Frame(env, rot)
        u = env.vec('u', 3, -30, 30)
        if name in ('radial', 'thinlens', 'lens', 'lens_refl', 'random'):
            # the ray is fixed except for a shift: these rotate vectors by free angles
            u = env.arr([5, env.num(1) / 2, u[2]])
        d = direction(env, mode)
        rows = [miss_row(0), (u, d), miss_row(1)]
        el = ELEMENTS[name](env, fr.kwargs())
        ph = photon_list(env, fr, rows)
        before = snapshot(ph)
        want, t = rect_hit(env, u, d, fr.zoom)
        hit = bool(want)
        if name == 'radial' and hit:
            # the last interaction must not be at the centre of the element
            v = before['pos'][1][:3] - fr.c
            x = env.cross(before['dir'][1][:3], v)
            env.assume(env.dot(x, x) >= env.num(1) / 64)
        if name == 'thinlens' and hit:
            y, z = u[1] + t * d[1], u[2] + t * d[2]
            env.assume(y * y + z * z >= env.num(1) / 64)
        out = el(ph)
        env.check('same number of photons', len(out) == 3)
        judge(env, name, el, out, before, [False, hit, False], [None, t, None], fr, rows)
        env.check('all original columns are still there', all(c in out.colnames for c in before))
    f.__name__ = 'miss_%s_%s' % (name, mode)
    f.__doc__ = '%s: %s direction, rotation %d; the other two photons miss.' % (name, mode, rot)
    return f


for _n in sorted(ELEMENTS):
    harness(timeout=100, max_paths=600)(_miss(_n, 'oblique', 5))
for _n in ('filter', 'detector', 'baffle', 'stack', 'loop'):
    harness(timeout=100, max_paths=600)(_miss(_n, 'free', 2))
for _n in ('grating', 'cat', 'lens', 'brewster', 'filter_id'):
    harness(timeout=100, max_paths=600)(_miss(_n, 'axis', 7))


@harness(timeout=60)
def nobody_hits(env):
    """no photon hits: the list comes back unchanged, for every element."""
    names = sorted(n for n in ELEMENTS if n != 'baffle')
    name = env.choice('element', names)
    fr = Frame(env, 5)
    el = ELEMENTS[name](env, fr.kwargs())
    a = env.real('a', 5, 30)
    rows = [((3, a, 1), (-1, 0, 0)), ((2, -a, 0), (1, 0, 0))]
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    out = el(ph)
    for i in range(2):
        row_unchanged(env, 'photon %d' % i, before, out, i)


@harness(timeout=100, max_paths=1500)
def miss_cylinder(env):
    """tube detector, ray along -x at symbolic height and offset."""
    fr = Frame(env, 5, zoom=(3, 3, 4))
    u = env.arr([env.real('u0', 4, 30), env.real('u1', -6, 6), env.real('u2', -6, 6)])
    d = env.arr([-1, 0, 0])
    rows = [((40, 40, 1), (-1, 0, 0)), (u, d), ((20, 0, 0), (1, 0, 0))]
    el = b_cylinder(env, fr.kwargs())
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    hit = bool(env.and_(u[1] <= 3, u[1] >= -3, u[2] <= 4, u[2] >= -4))
    out = el(ph)
    new = [c for c in out.colnames if c not in before]
    for i in (0, 2):
        row_unchanged(env, 'photon %d missed' % i, before, out, i)
        for c in new:
            env.check('photon %d missed: %s stays unset' % (i, c), env.isnan(out[c].data[i]))
    if not hit:
        row_unchanged(env, 'photon 1 missed', before, out, 1)
    else:
        x = env.sqrt(9 - u[1] * u[1])
        env.check_vec('photon 1 hits the near side', out['pos'].data[1],
                      fr.pos([x, u[1], u[2]]))
        env.check_eq('photon 1: height', out['det_y'].data[1], u[2])


@harness(timeout=60)
def global_filter(env):
    """a global filter multiplies the probability of all photons and changes nothing else."""
    o = env.imp('marxs.optics.filter')
    f = env.func('eff', 0, 1)
    fr = Frame(env, 5)
    rows = [miss_row(0), miss_row(1)]
    ph = photon_list(env, fr, rows)
    before = snapshot(ph)
    out = o.GlobalEnergyFilter(filterfunc=f)(ph)
    for i in range(2):
        row_unchanged(env, 'photon %d' % i, before, out, i, ('probability',))
        env.check_eq('photon %d probability' % i, out['probability'].data[i],
                     before['probability'][i] * f(before['energy'][i]))


@harness(timeout=100, max_paths=300)
def second_element(env):
    """photons that hit two elements of the same kind in a row: the later one overwrites id,
    local coordinates and output columns; photons that miss the later one keep the earlier ones."""
    name = env.choice('element', ['filter_id', 'detector', 'stack', 'loop', 'grating'])
    fr1 = Frame(env, 0, c=(0, 0, 0), zoom=(1, 4, 4))
    fr2 = Frame(env, 0, c=(-5, 0, 0), zoom=(1, 1, 2))
    a = ELEMENTS[name](env, fr1.kwargs())
    b = ELEMENTS[name](env, fr2.kwargs())
    if b.id_col is None:
        a.id_col = b.id_col = 'number'
    a.id_num, b.id_num = 5, 6
    y, z = env.real('y', -3, 3), env.real('z', -3, 3)
    rows = [((1, 0, 0), (-1, 0, 0)), ((1, y, z), (-1, 0, 0)), ((1, 5, 0), (-1, 0, 0))]
    ph = photon_list(env, fr1, rows)
    ph = a(ph)
    mid = snapshot(ph)
    hit = [bool(rect_hit(env, fr2_local(env, mid['pos'][i], fr2),
                         env.arr(list(mid['dir'][i][:3])), fr2.zoom)[0]) for i in (0, 1)]
    ph = b(ph)
    for i, h in enumerate(hit + [False]):
        if not h:
            row_unchanged(env, 'photon %d missed the second' % i, mid, ph, i)
        else:
            env.check('photon %d has the number of the second' % i, ph[b.id_col].data[i] == 6)
            env.check_eq('photon %d is on the second' % i, ph['pos'].data[i][0], -5)
            lc = b.loc_coos_name
            env.check_eq('photon %d local coordinate of the second' % i, ph[lc[0]].data[i],
                         ph['pos'].data[i][1])
            env.check_eq('photon %d local coordinate 2 of the second' % i, ph[lc[1]].data[i],
                         ph['pos'].data[i][2])
            env.check_eq('photon %d keeps its tag' % i, ph['tag'].data[i], mid['tag'][i])


def fr2_local(env, pos, fr):
    return env.arr([pos[k] - fr.c[k] for k in range(3)])
