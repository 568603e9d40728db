"""Groups of elements: placement, misalignment, arguments and numbers of the members."""
from symx.worker import registry
from .elements import Frame

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Orientations are exact rational rotations (some followed by a symbolic rotation about x); '
    'positions within +-100, zooms in (0, 50]; 2 or 3 members.',
    'Placements of the group that are zoomed differently in different directions are only '
    'combined with a move of the reference point without rotation (no placement of a member '
    'without shear exists otherwise).',
]


def affine(env, R, t):
    return env.pos4d(t, R, [1, 1, 1])


def members(env, par):
    return [e.geometry.pos4d for e in par.elements]


def is_pose(env, name, m, c, L):
    for i in range(3):
        for j in range(3):
            env.check_eq('%s: linear part [%d,%d]' % (name, i, j), m[i][j], L[i][j])
        env.check_eq('%s: centre [%d]' % (name, i), m[i][3], c[i])
    env.check_vec(name + ': last row', m[3], [0, 0, 0, 1])


def mm(env, *ms):
    r = ms[0]
    for m in ms[1:]:
        r = env.matmul(r, m)
    return r


def diag(env, z):
    return env.arr([[z[0], 0, 0], [0, z[1], 0], [0, 0, z[2]]])


def spin(env, name):
    """Rotation by any angle about x."""
    a = env.angle(name)
    c, s = env.np.cos(a), env.np.sin(a)
    return env.arr([[1, 0, 0], [0, c, -s], [0, s, c]])


def same_pose(env, name, a, b):
    for i in range(4):
        env.check_vec('%s: row %d' % (name, i), a[i], b[i])


@harness(timeout=80)
def poses(env):
    """two members: any positions and zooms of group, members and arguments; any misalignment of
    the group and of one member; rational rotations everywhere."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics.base')
    k = env.choice('rotations', [(0, 5, 7, 1, 3), (5, 6, 0, 7, 4), (7, 0, 2, 6, 5)])
    Rg, Ru, Rs, Re, Ra = [env.rot(i) for i in k]
    pg, tu, ts, ta = env.vec('g', 3, -100, 100), env.vec('u', 3, -1, 1), env.vec('s', 3, -1, 1), \
        env.vec('a', 3, -2, 2)
    zg = [env.positive('zg%d' % i, 50) for i in range(3)]
    te = [env.vec('e%d' % i, 3, -9, 9) for i in range(2)]
    ze = [[env.positive('ze%d%d' % (i, j), 50) for j in range(3)] for i in range(2)]
    za = [env.positive('za%d' % j, 50) for j in range(3)]
    R2 = env.rot(2)
    spec = env.choice('spec', ['dict', 'matrices', 'positions'])
    if spec == 'dict':
        ep = {'position': [t.copy() for t in te], 'orientation': [Re.copy(), R2.copy()],
              'zoom': [env.arr(z) for z in ze]}
    elif spec == 'matrices':
        ep = [env.pos4d(te[0], Re, ze[0]), env.pos4d(te[1], R2, ze[1])]
    else:
        ep = {'position': [t.copy() for t in te]}
        Re = R2 = env.rot(0)
        ze = [[1, 1, 1]] * 2
    par = sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos=ep, position=pg.copy(),
                       orientation=Rg.copy(), zoom=env.arr(zg),
                       elem_args={'position': ta.copy(), 'orientation': Ra.copy(),
                                  'zoom': env.arr(za)})
    G = mm(env, Rg, diag(env, zg))
    for i, R in enumerate([Re, R2]):
        is_pose(env, 'member %d' % i, members(env, par)[i],
                pg + env.matmul(G, te[i] + ta),
                mm(env, G, R, Ra, diag(env, ze[i]), diag(env, za)))
    par.uncertainty = affine(env, Ru, tu)
    zs = [1, env.num(3) / 2, 2] if spec == 'dict' else [1, 1, 1]
    par.elem_uncertainty[1] = env.pos4d(ts, Rs, zs)
    before = [m.copy() for m in members(env, par)]
    par.generate_elements()
    env.check('still two members', len(par.elements) == 2)
    got = members(env, par)
    is_pose(env, 'misaligned group', got[0],
            pg + env.matmul(G, tu + env.matmul(Ru, te[0] + ta)),
            mm(env, G, Ru, Re, Ra, diag(env, ze[0]), diag(env, za)))
    is_pose(env, 'misaligned member', got[1],
            pg + env.matmul(G, tu + env.matmul(Ru, ts + te[1] + ta)),
            mm(env, G, Ru, Rs, R2, Ra, diag(env, zs), diag(env, ze[1]), diag(env, za)))
    par.uncertainty = env.pos4d([0, 0, 0], env.rot(0), [1, 1, 1])
    par.elem_uncertainty[1] = env.pos4d([0, 0, 0], env.rot(0), [1, 1, 1])
    par.generate_elements()
    for i in range(2):
        same_pose(env, 'back to the nominal place', members(env, par)[i], before[i])


@harness(timeout=60)
def free_rotation(env):
    """misalignment by any rotation angle about x of the group and about y of one member."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics.base')
    Ru = spin(env, 'alpha')
    b = env.angle('beta')
    c, s = env.np.cos(b), env.np.sin(b)
    Rs = env.arr([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    pg, te = env.vec('g', 3, -100, 100), env.vec('e', 3, -9, 9)
    z = env.positive('z', 50)
    R = env.rot(5)
    par = sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos=[
        affine(env, R, te), affine(env, env.rot(0), [1, 2, 3])], position=pg.copy(),
        elem_args={'zoom': env.arr([1, z, 2 * z])})
    par.uncertainty = affine(env, Ru, [0, 0, 0])
    par.elem_uncertainty[0] = affine(env, Rs, [0, 0, 0])
    par.generate_elements()
    Z = diag(env, [1, z, 2 * z])
    is_pose(env, 'member 0', members(env, par)[0], pg + env.matmul(Ru, te),
            mm(env, Ru, Rs, R, Z))
    is_pose(env, 'member 1', members(env, par)[1],
            pg + env.matmul(Ru, env.arr([1, 2, 3])), mm(env, Ru, Z))


@harness(timeout=80)
def move_center(env):
    """moving the reference point: any shift, with or without rotation, any place of the group
    and its members."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics.base')
    k = env.choice('rotations', [(0, 0, 0), (5, 0, 1), (0, 7, 5), (5, 7, 6)])
    Rg, Rc, Re = [env.rot(i) for i in k]
    z = env.positive('z', 50)
    zg = [z, z, z] if k[1] else [z, 2 * z, env.positive('z2', 50)]
    pg, tc, te = env.vec('g', 3, -100, 100), env.vec('c', 3, -9, 9), env.vec('e', 3, -9, 9)
    par = sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos=[
        affine(env, Re, te), affine(env, env.rot(0), [1, 2, 3])], position=pg.copy(),
        orientation=Rg.copy(), zoom=env.arr(zg), elem_args={'zoom': 2})
    before = [m.copy() for m in members(env, par)]
    ref = par.pos4d.copy()
    change = affine(env, Rc, tc)
    par.move_center(change.copy())
    same_pose(env, 'reference point', par.pos4d, env.matmul(change, ref))
    for i in range(2):
        same_pose(env, 'member %d stays' % i, members(env, par)[i], before[i])
    # and misalignments are now relative to the new reference point
    U = affine(env, env.rot(2), env.arr([1, -1, 2]))
    par.uncertainty = U
    par.generate_elements()
    new = env.matmul(change, ref)
    inv = inverse(env, new, zg, env.matmul(Rc, Rg))
    for i in range(2):
        same_pose(env, 'member %d turns about the new reference' % i, members(env, par)[i],
                  mm(env, new, U, inv, before[i]))


def inverse(env, m, z, R):
    """Inverse of translation * R * zoom."""
    A = [[R[j][i] / z[i] for j in range(3)] for i in range(3)]
    t = [m[j][3] for j in range(3)]
    rows = [A[i] + [-env.dot(A[i], t)] for i in range(3)]
    return env.arr(rows + [[0, 0, 0, 1]])


@harness(timeout=60)
def arguments(env):
    """lists of arguments (one for each member), common arguments, numbers and names; the
    arguments of the caller are not changed."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics')
    base = env.imp('marxs.optics.base')

    class Probe(base.FlatOpticalElement):
        def __init__(self, **kwargs):
            self.got = {k: kwargs.pop(k) for k in ('a', 'b', 'c')}
            super().__init__(**kwargs)

    off = env.choice('offset', [0, 7])
    n = env.choice('n', [1, 2, 3])
    a = [env.real('a%d' % i) for i in range(n)]
    z = [env.positive('z%d' % i, 9) for i in range(n)]
    b = env.arr([env.real('b%d' % i) for i in range(n)])
    c = [1.5] * (n + 1)
    args = {'a': a, 'b': b, 'c': c, 'zoom': [env.arr([1, x, x]) for x in z]}
    keys = {k: v for k, v in args.items()}
    kw = {} if env.choice('id_col', [True, False]) is False else {'id_col': 'chip'}
    par = sim.Parallel(elem_class=Probe, elem_args=args, id_num_offset=off,
                       elem_pos={'position': [env.arr([0, 3 * i, 0]) for i in range(n)]}, **kw)
    env.check('one member for each place', len(par.elements) == n)
    env.check('arguments of the caller stay', set(args) == set(keys) and
              all(args[k] is keys[k] for k in keys))
    for i, e in enumerate(par.elements):
        env.check_eq('list argument %d' % i, e.got['a'], a[i])
        env.check('array %d is common' % i, len(e.got['b']) == n)
        env.check('list of other length %d is common' % i, len(e.got['c']) == n + 1)
        env.check_eq('zoom %d' % i, e.geometry.pos4d[1][1], z[i])
        env.check('number %d' % i, e.id_num == off + i)
        env.check('number column %d' % i, e.id_col == ('chip' if kw else 'element'))
    env.check('names differ', len(set(str(e.name) for e in par.elements)) == n)


@harness(timeout=80, max_paths=1500)
def numbers(env):
    """a photon is marked with the number of the member that it hits, or with none; the
    coordinates on the chip are those of that member. Three chips, symbolic place and size."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics')
    F = Frame(env, env.choice('rot', [0, 5]), zoom=(1, 1, 1))
    h = env.real('h', env.num(1) / 2, 2)          # half height of the chips
    gap = 5
    par = sim.Parallel(elem_class=o.FlatDetector,
                       elem_args={'pixsize': env.num(1) / 2, 'zoom': env.arr([1, 2, 2])},
                       elem_pos={'position': [env.arr([h * 0, gap * i, i * h]) for i in range(3)]},
                       id_col='chip', id_num_offset=3, **F.kwargs())
    y, z = env.real('y', -4, 14), env.real('z', -4, 6)
    d = env.arr([-env.num(3) / 5, env.num(4) / 5, 0])
    t = 5
    p = F.pos([-t * d[0], y - t * d[1], z])
    q = F.pos([-t * d[0], gap + 1 - t * d[1], h])       # hits the second one
    ph = env.photons(2, [p, q], [F.dir(d)] * 2)
    ph = par(ph)
    want = -1
    for i in range(3):
        if abs(y - gap * i) <= 2 and abs(z - i * h) <= 2:
            want = i
    got = ph['chip'][0]
    env.check('number of the other photon', ph['chip'][1] == 4)
    env.check_eq('coordinate of the other photon', ph['det_x'][1], 1)
    if want < 0:
        env.check('no number', got == -1)
        env.check('no coordinate', env.isnan(ph['det_x'][0]))
    else:
        env.check('number of the member', got == 3 + want)
        env.check_eq('y on the chip', ph['det_x'][0], y - gap * want)
        env.check_eq('z on the chip', ph['det_y'][0], z - want * h)


@harness(timeout=60)
def nested(env):
    """a group of groups: any place of both and any size."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics')
    pg, to, ti = env.vec('g', 3, -100, 100), env.vec('o', 3, -9, 9), env.vec('i', 3, -9, 9)
    Rg, Ro, Ri = env.rot(5), env.rot(7), env.rot(6)
    z = env.positive('z', 9)
    par = sim.Parallel(elem_class=sim.Parallel, position=pg.copy(), orientation=Rg.copy(),
                       elem_pos=[affine(env, Ro, to), affine(env, Rg, [1, 2, 3])],
                       elem_args={'elem_class': o.FlatDetector, 'id_col': 'inner',
                                  'elem_args': {'pixsize': 100, 'zoom': z},
                                  'elem_pos': {'position': [ti.copy(), env.arr([3, 2, 1]),
                                                            env.arr([4, 5, 1])],
                                               'orientation': [Ri.copy(), Ro.copy(),
                                                               env.rot(0)]}},
                       id_col='outer', id_num_offset=4)
    Z = diag(env, [z, z, z])
    for k, (R, t) in enumerate([(Ro, to), (Rg, env.arr([1, 2, 3]))]):
        sub = par.elements[k]
        env.check('three members %d' % k, len(sub.elements) == 3)
        env.check('number of the group %d' % k, sub.id_num == 4 + k)
        for m, (r, s) in enumerate([(Ri, ti), (Ro, env.arr([3, 2, 1])),
                                    (env.rot(0), env.arr([4, 5, 1]))]):
            is_pose(env, 'group %d member %d' % (k, m), sub.elements[m].geometry.pos4d,
                    pg + env.matmul(Rg, t + env.matmul(R, s)), mm(env, Rg, R, r, Z))
            env.check('number %d %d' % (k, m), sub.elements[m].id_num == m)


@harness(timeout=60)
def refused(env):
    """lists of different length; shear."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics.base')
    x = env.real('x', env.num(1) / 10, 1)
    what = env.choice('what', ['length', 'scalar', 'arg shear', 'elem shear'])
    shear = env.arr([[1, x, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])
    eye = affine(env, env.rot(0), [0, 0, 0])

    def call():
        if what == 'length':
            sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos={
                'position': [env.arr([x, 0, 0])] * 3, 'orientation': [env.rot(0)] * 2})
        elif what == 'scalar':
            sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos={
                'position': [env.arr([x, 0, 0])] * 3, 'orientation': 5})
        elif what == 'arg shear':
            sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos=[eye, eye],
                         elem_args={'pos4d': shear})
        else:
            p = sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos=[eye, eye])
            p.elem_uncertainty[1] = shear
            p.generate_elements()
    exc = sim.simulator.SimulationSetupError if what == 'elem shear' else ValueError
    env.check('refused: ' + what, env.raises(exc, call))
