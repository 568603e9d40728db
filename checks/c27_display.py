"""Display: triangles, boxes, surfaces and rays that are handed to the viewers."""
from symx.worker import registry
from .elements import Frame

HARNESSES, harness = registry()
NEEDS = ['marxs.visualization.x3d', 'marxs.visualization.threejsjson',
         'marxs.visualization.utils']
ASSUMPTIONS = [
    'The classes of the x3d package are replaced by records of their arguments in symbolic runs '
    '(the replay uses the real ones); matplotlib does the mapping of numbers to colors.',
    'Outlines of up to 5 points (90 for apertures), surfaces of 3 x 4 points, 3 rays with 3 '
    'points; the mayavi backend and the text output for three.js are outside, so is the torus '
    'in json.',
]


class Rec:
    """Stands for any x3d node: keeps the arguments."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Exact:
    def __init__(self, np):
        self._np = np

    def __getattr__(self, k):
        return getattr(self._np, k)

    def ones(self, *a, **k):
        import numpy as np
        return np.ones(*a, **k)

    def round(self, x, decimals=0):
        import numpy as np
        return x if np.asarray(x).dtype == object else np.round(x, decimals)


def backend(env, name='x3d'):
    m = env.imp('marxs.visualization.' + name)
    if env.symbolic and name == 'x3d':
        class ns:
            pass
        for k in ('Material', 'Shape', 'Appearance', 'IndexedTriangleSet', 'IndexedFaceSet',
                  'Coordinate', 'LineSet'):
            setattr(ns, k, type(k, (Rec,), {}))
        env.patch(m, 'x3d', ns)
        env.patch(m, 'float', lambda x: x)
        env.patch(m, 'np', Exact(m.np))      # no rounding
    return m


def points(shape):
    return [list(p) for p in shape.geometry.coord.point]


def near(env, name, got, want):
    """Same place: viewers use m with 4 digits, the simulation mm."""
    env.check(name + ': 3 coordinates', len(got) == 3)
    for k in range(3):
        env.check_near(name, got[k], want[k] / 1000, env.num(51) / 1000000)


def faces(index):
    """Lists of the points of each face, from a list where -1 ends a face."""
    r = [[]]
    for i in index:
        if i < 0:
            r.append([])
        else:
            r[-1].append(int(i))
    return [f for f in r if f]


def edges(tri):
    """Directed edges that are in one triangle only."""
    e = set()
    for t in tri:
        for a, b in zip(t, (t[1], t[2], t[0])):
            a, b = int(a), int(b)
            if (b, a) in e:
                e.remove((b, a))
            elif (a, b) in e:
                return None
            else:
                e.add((a, b))
    return e


def loop(idx):
    return {(a, b) for a, b in zip(idx, list(idx[1:]) + [idx[0]])}


def back(es):
    return {(b, a) for a, b in es}


def area(env, pts, tri):
    """Twice the sum of the vector areas of triangles."""
    s = env.arr([0, 0, 0])
    for t in tri:
        a, b, c = [pts[int(i)] for i in t]
        s = s + env.cross(b - a, c - a)
    return s


def poly(env, p):
    s = env.arr([0, 0, 0])
    for i in range(len(p)):
        s = s + env.cross(p[i], p[(i + 1) % len(p)])
    return s


@harness(timeout=60)
def hole(env):
    """triangles between any two closed outlines with any number of points: they cover what is
    between them, each piece once."""
    u = env.imp('marxs.visualization.utils')
    n, m = env.choice('outer', [3, 4, 5]), env.choice('inner', [3, 4, 5])
    out = env.arr([[env.real('o%d%d' % (i, k), -9, 9) for k in range(3)] for i in range(n)])
    inn = env.arr([[env.real('i%d%d' % (i, k), -9, 9) for k in range(3)] for i in range(m)])
    xyz, tri = u.plane_with_hole(out.copy(), inn.copy())
    env.check('number of points', len(xyz) == n + m)
    for i in range(n):
        env.check_vec('outer points', xyz[i], out[i])
    for i in range(m):
        env.check_vec('inner points', xyz[n + i], inn[i])
    env.check('triangles', all(len(t) == 3 and 0 <= min(t) and max(t) < n + m for t in tri))
    e = edges(tri)
    o, i = loop(range(n)), loop(range(n, n + m))
    env.check('each edge inside belongs to two triangles and the outlines to one',
              e in (o | back(i), i | back(o)))
    got, want = area(env, xyz, tri), poly(env, out) - poly(env, inn)
    if e == i | back(o):
        want = -want
    env.check_vec('area', got, want)


@harness(timeout=60)
def combined(env):
    """several triangulations of different size, any coordinates."""
    u = env.imp('marxs.visualization.utils')
    sizes = env.choice('sizes', [(3, 4, 5), (5, 3, 4), (4, 4, 3), (3, 5), (5, 3), (4,)])
    pts, tris = [], []
    for j, n in enumerate(sizes):
        pts.append(env.arr([[env.real('p%d%d' % (j, i), -9, 9), i, j] for i in range(n)]))
        import numpy as np
        tris.append(np.array([[0, i, i + 1] for i in range(1, n - 1)]))
    before = [t.copy() for t in tris]
    xyz, tri = u.combine_disjoint_triangulations([p.copy() for p in pts], tris)
    env.check('number of points', len(xyz) == sum(sizes))
    env.check('number of triangles', len(tri) == sum(n - 2 for n in sizes))
    env.check('input is not changed', all((a == b).all() for a, b in zip(before, tris)))
    k = 0
    for j in range(len(sizes)):
        for t in tris[j]:
            for c in range(3):
                env.check_vec('triangle %d of part %d' % (k, j), xyz[int(tri[k][c])],
                              pts[j][int(t[c])])
            k += 1


@harness(timeout=60)
def wedge(env):
    """outline of a part of a circle between any two angles."""
    geo = env.imp('marxs.math.geometry')
    lo = env.angle('lo', -4, 4)
    w = env.real('width', 0, env.num(628) / 100)
    r = env.positive('r', 5)
    fr = Frame(env, 5, zoom=(1, 2, 4))
    g = geo.FinitePlane(fr.kwargs())
    n = 5
    got = geo.xyz_circle(g, r_factor=r, philim=[lo, lo + w], n_vertices=n)
    env.check('number of points', len(got) == n)
    for i in range(n):
        a = env.PI / 2 + 2 * env.PI * i / n      # starts at the top
        inside = False
        for k in range(-2, 3):
            d = a + 2 * k * env.PI - lo
            if d >= 0 and d < w:
                inside = True
        if inside:
            want = fr.pos([0, 2 * r * env.cos(a), 4 * r * env.sin(a)])
        else:
            want = fr.pos([0, 0, 0])
        for k in range(3):
            env.check_near('point %d' % i, got[i][k], want[k], env.num(1) / 1000000)


def _aperture(kind):
    def f(env):
        ap = env.imp('marxs.optics.aperture')
        geo = env.imp('marxs.math.geometry')
        zy, q = env.positive('zy', 9), env.real('outer_factor', env.num(11) / 10, 9)
        zz = env.positive('zz', 9) if kind == 'rectangle' else zy
        fr = Frame(env, 5, zoom=(1, zy, zz))
        kw = fr.kwargs()
        display = {'outer_factor': q}
        ring = kind in ('ring', 'ring segment')
        phi = None
        if ring:
            f_in = env.real('r_inner', env.num(1) / 10, env.num(9) / 10)
            kw['r_inner'] = f_in * zy
            display['inner_factor'] = k = env.real('inner_factor', 0, env.num(9) / 10)
        if 'segment' in kind:
            phi = kw['phi'] = [env.num(1) / 2, env.num(2)]
        if kind == 'rectangle':
            a = ap.RectangleAperture(**kw)
        else:
            a = ap.CircleAperture(**kw)
        xyz, tri = a.geometry.triangulate(display)
        loc = []
        for p in xyz:
            d = [p[k] - fr.c[k] for k in range(3)]
            loc.append(env.arr([env.dot([fr.R[k][j] for k in range(3)], d) for j in range(3)]))
        for i, p in enumerate(loc):
            env.check_eq('in the plane of the aperture', p[0], 0)
        s = [area(env, loc, [t])[0] for t in tri]
        sign = None
        # all triangles have the same sense: nothing is covered twice
        for t, v in zip(tri, s):
            if sign is None and not env.same(v, 0):
                sign = 1 if v > 0 else -1
            if sign is not None:
                env.check_le('sense of the triangles', 0, sign * v)
        n = 4 if kind == 'rectangle' else 90
        tot = sign * sum(s, env.num(0))
        full = poly(env, loc[:n])[0]
        full = full if full > 0 else -full
        if kind == 'rectangle':
            env.check_eq('size of the frame', full, 8 * zy * zz * q * q)
            env.check_eq('area of the frame', tot, 8 * zy * zz * (q * q - 1))
        else:
            for p in loc[:n]:
                env.check_near('outer circle', p[1] * p[1] + p[2] * p[2], q * q * zy * zy,
                               env.num(1) / 1000000)
            c = full / (q * q)     # area of the circle of radius 1
            if phi is None:
                want = full - c
                if ring:
                    want = want + c * f_in * f_in * (1 - k * k)
            else:
                # the circle is drawn with 90 points: those in the segment and the centre
                num = [i for i in range(-180, 180)
                       if 0.5 <= 3.141592653589793 * (0.5 + i / 45) < 2]
                seg = c * (len(num) - 1) / 90
                want = full - seg
                if ring:
                    want = want + seg * f_in * f_in * (1 - k * k)
            env.check_near('area of the frame', tot, want, env.num(1) / 10000)
    f.__name__ = kind.replace(' ', '_')
    f.__doc__ = ('%s apertures of any size, any size of the frame: the frame is around the '
                 'opening and covers nothing twice' % kind)
    return f


for _k in ('rectangle', 'circle', 'ring', 'segment', 'ring segment'):
    harness(timeout=90)(_aperture(_k))


def corner(env, display):
    """Limits of the box in x, y, z for these display settings."""
    lim = [[-1, 1] for _ in range(3)]
    half = display.get('box-half', '')
    if half in ('+x', '-x', '+y', '-y', '+z', '-z'):
        lim['xyz'.index(half[1])][1 if half[0] == '+' else 0] = 0
    return lim


HALF = [None, '+x', '-x', '+y', '-y', '+z', '-z', '', 'q', '+']


@harness(timeout=60)
def boxes(env):
    """elements of any size at any place, whole or half: the six faces of the box."""
    x = backend(env)
    u = env.imp('marxs.visualization.utils')
    o = env.imp('marxs.optics.base')
    zoom = [env.positive('z%d' % i, 9) for i in range(3)]
    fr = Frame(env, 5, env.vec('c'), zoom)
    el = o.FlatOpticalElement(**fr.kwargs())
    half = env.choice('half', HALF)
    display = {'color': (0.25, 0.5, 1.0), 'shape': 'box'}
    if half is not None:
        display['box-half'] = half
    lim = corner(env, display)
    c = u.halfbox_corners(el, display)
    env.check('eight corners', len(c) == 8)
    label = []
    for i in range(8):
        d = [c[i][k] - fr.c[k] for k in range(3)]
        loc = [env.dot([fr.R[k][j] for k in range(3)], d) / zoom[j] for j in range(3)]
        lab = [[s for s in (0, 1) if env.same(loc[j], lim[j][s])] for j in range(3)]
        if not all(lab):     # with which numbers does it differ?
            env.check('corner %d is a corner of the box' % i, env.allof(
                [env.or_(env.eq(loc[j], lim[j][0]), env.eq(loc[j], lim[j][1]))
                 for j in range(3)]))
            return
        label.append(tuple(v[0] for v in lab))
    env.check('all corners of the box', len(set(label)) == 8)
    scene = x.box(el, display)
    env.check('scene is returned with one shape', scene is not None and len(scene.children) == 1)
    sh = scene.children[0]
    p = points(sh)
    env.check('eight points', len(p) == 8)
    for i in range(8):
        near(env, 'point %d' % i, p[i], c[i])
    fs = faces(sh.geometry.coordIndex)
    sides = set()
    for f in fs:
        env.check('face has four corners', len(f) == 4)
        lab = [label[i] for i in f]
        same = [j for j in range(3) if len({q[j] for q in lab}) == 1]
        env.check('face is on one side of the box', len(same) == 1)
        env.check('sides of the face are edges of the box', all(
            sum(a != b for a, b in zip(lab[i], lab[i - 1])) == 1 for i in range(4)))
        sides.add((same[0], lab[0][same[0]]))
    env.check('all six sides', len(sides) == 6 and len(fs) == 6)
    env.check('color', list(sh.appearance.material.diffuseColor) == [0.25, 0.5, 1.0])


@harness(timeout=60)
def surfaces(env):
    """parametric surface with any points: each cell of the grid is one face."""
    x = backend(env)
    n, m = env.choice('shape', [(3, 4), (2, 3), (4, 2)])
    pts = env.arr([[[env.real('p%d%d' % (i, j), -9, 9), i, j, 1] for j in range(m)]
                   for i in range(n)])
    args = []
    a, b = env.choice('coo1', [None, 'a']), env.choice('coo2', [None, 'b'])
    op = env.choice('opacity', [0.25, None])
    display = {'color': (0.25, 0.5, 1.0)}
    if op is not None:
        display['opacity'] = op
    for k, v in (('coo1', a), ('coo2', b)):
        if v is not None:
            display[k] = v

    class geometry:
        @staticmethod
        def parametric_surface(c1, c2, d):
            args.append((c1, c2, d))
            return pts.copy()

    class obj:
        pass
    obj.geometry = geometry
    scene = x.surface(obj, display)
    env.check('range of the parameters', args == [(a, b, display)])
    env.check('scene is returned with one shape', scene is not None and len(scene.children) == 1)
    sh = scene.children[0]
    p = points(sh)
    env.check('number of points', len(p) == n * m)
    pos = {}
    for i in range(n):
        for j in range(m):
            near(env, 'point', p[i * m + j], pts[i, j])
    fs = faces(sh.geometry.coordIndex)
    want = {frozenset([i * m + j, i * m + j + 1, i * m + m + j, i * m + m + j + 1])
            for i in range(n - 1) for j in range(m - 1)}
    env.check('one face for each cell', len(fs) == len(want) and
              {frozenset(f) for f in fs} == want)
    env.check('corners of faces are in order', all(
        abs(f[i] // m - f[i - 1] // m) + abs(f[i] % m - f[i - 1] % m) == 1
        for f in fs for i in range(4)))
    env.check_eq('transparency', sh.appearance.material.transparency,
                 0 if op is None else 0.75)


@harness(timeout=60)
def triangles(env):
    """triangles of an aperture at any place, in x3d and json."""
    x = backend(env)
    js = env.imp('marxs.visualization.threejsjson')
    ap = env.imp('marxs.optics.aperture')
    fr = Frame(env, 5, env.vec('c'), (1, env.positive('zy', 9), env.positive('zz', 9)))
    a = ap.RectangleAperture(**fr.kwargs())
    display = {'color': (0.25, 0.5, 1.0), 'outer_factor': env.real('f', 2, 9)}
    xyz, tri = a.geometry.triangulate(display)
    flat = [int(i) for t in tri for i in t]
    scene = x.triangulation(a, dict(display))
    env.check('scene is returned with one shape', scene is not None and len(scene.children) == 1)
    sh = scene.children[0]
    p = points(sh)
    env.check('number of points', len(p) == len(xyz))
    for i in range(len(p)):
        near(env, 'point %d' % i, p[i], xyz[i])
    env.check('triangles', list(sh.geometry.index) == flat)
    out = js.triangulation(a, dict(display))
    env.check('one object in json', out['n'] == 1 and len(out['pos']) == 1 and
              len(out['faces']) == 1 and out['geometry'] == 'BufferGeometry')
    env.check_vec('points in json', out['pos'][0], [v for q in xyz for v in q])
    env.check('triangles in json', list(out['faces'][0]) == flat)


@harness(timeout=60)
def matrices(env):
    """json: box with the matrix of the element, column after column, nested containers."""
    js = env.imp('marxs.visualization.threejsjson')
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics.detector')
    el, mats = [], []
    for i in range(3):
        fr = Frame(env, i + 3, env.vec('c%d' % i), (i + 1, env.num(3) / 2, 4 + i))
        el.append(o.FlatDetector(name='d%d' % i, **fr.kwargs()))
        mats.append(env.pos4d(fr.c, fr.R, fr.zoom))
    nest = env.choice('nest', ['flat', 'first', 'last', 'all'])
    if nest == 'flat':
        seq = sim.Sequence(elements=el)
    elif nest == 'first':
        seq = sim.Sequence(elements=[sim.Sequence(elements=el[:2]), el[2]])
    elif nest == 'last':
        seq = sim.Sequence(elements=[el[0], sim.Sequence(elements=el[1:])])
    else:
        seq = sim.Sequence(elements=[sim.Sequence(elements=[sim.Sequence(elements=el)])])
    hide = env.choice('hidden', [None, 1])
    if hide is not None:
        el[hide].display = dict(el[hide].display, shape='None')
    out = js.plot_object(seq)
    show = [i for i in range(3) if i != hide]
    env.check('one entry for each element', isinstance(out, list) and
              [d['name'] for d in out] == ['d%d' % i for i in show])
    for d, i in zip(out, show):
        env.check('kind', d['n'] == 1 and d['geometry'] == 'BoxGeometry' and
                  len(d['pos4d']) == 1 and len(d['pos4d'][0]) == 16)
        env.check('size of the box', tuple(d['geometrypars']) == (2, 2, 2))
        for r in range(4):
            for c in range(4):
                env.check_eq('matrix', d['pos4d'][0][4 * c + r], mats[i][r][c])


@harness(timeout=60)
def container(env):
    """x3d: all elements of nested containers are in the scene, once."""
    x = backend(env)
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics.detector')
    c = [env.vec('c%d' % i) for i in range(3)]
    el = [o.FlatDetector(position=v) for v in c]
    for e in el:
        e.display = {'shape': 'box', 'color': 'red'}
    seq = sim.Sequence(elements=[el[0], sim.Sequence(elements=el[1:])])
    given = env.choice('scene', [False, True])
    if given:
        scene = x.Scene(children=[])
        x.plot_object(el[2], scene=scene)
        out = x.plot_object(seq, scene=scene)
        env.check('scene is used', out is scene)
        c = [c[2]] + c
    else:
        out = x.plot_object(seq)
    env.check('number of shapes', len(out.children) == len(c))
    for sh, v in zip(out.children, c):
        p = points(sh)
        for k in range(3):
            env.check_near('centre', sum((q[k] for q in p), env.num(0)) / 8, v[k] / 1000,
                           env.num(51) / 1000000)


def ray_data(env, n, N):
    return env.arr([[[env.real('r%d%d%d' % (i, j, k), -9, 9) for k in range(3)]
                     for j in range(N)] for i in range(n)])


@harness(timeout=60)
def rays(env):
    """x3d: three rays with two or three points, colors for rays or points."""
    import numpy as np
    x = backend(env)
    n, N = env.choice('shape', [(3, 2), (3, 3), (2, 3)])
    data = ray_data(env, n, N)
    for i in range(n):
        data[i, 0, 0] = env.num(1000 * i)      # which ray is it?
    kind = env.choice('scalar', ['none', 'rays', 'points'])
    vals = [env.choice('s%d' % i, [0., 0.02, 3.]) for i in range(n)] if kind != 'none' else \
        [1.] * n
    if kind == 'none':
        sc = None
    elif kind == 'rays':
        sc = np.array(vals)
    else:
        sc = np.array([[v] + [7. + i + j for j in range(N - 1)] for i, v in enumerate(vals)])
    norm = {'vmin': 0., 'vmax': 4.}
    import matplotlib
    cmap = matplotlib.colormaps['viridis']
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        scene = x.plot_rays(data.copy(), sc, normalize_kwargs=norm)
    seen = []
    for sh in scene.children:
        col = [float(v) for v in sh.appearance.material.emissiveColor]
        p = points(sh)
        count = [int(v) for v in sh.geometry.vertexCount]
        env.check('number of points', all(c == N for c in count) and len(p) == sum(count))
        for a in range(len(count)):
            i = int(round(float(str(p[a * N][0])))) if not env.symbolic else \
                int(p[a * N][0].cval())
            seen.append(i)
            env.check('color of ray', np.allclose(col, np.round(cmap(vals[i] / 4), 2)[:3]))
            for j in range(N):
                near(env, 'place of ray', p[a * N + j], data[i, j])
    env.check('each ray is there once', sorted(seen) == list(range(n)))


@harness(timeout=60)
def json_rays(env):
    """json: any rays, with colors for rays or points."""
    import numpy as np
    import matplotlib
    js = env.imp('marxs.visualization.threejsjson')
    n, N = env.choice('shape', [(3, 2), (2, 3)])
    data = ray_data(env, n, N)
    kind = env.choice('scalar', ['rays', 'points'])
    v = np.array([0., 2., 4.][:n]) if n == 3 else np.array([0., 4.])
    sc = v if kind == 'rays' else np.array([v + j for j in range(N)]).T
    out = js.plot_rays(data.copy(), sc, cmap='viridis', prop={}, name='x')
    cmap = matplotlib.colormaps['viridis']
    env.check('number of rays', out['n'] == n and len(out['pos']) == n and len(out['color']) == n)
    lo, hi = sc.min(), sc.max()
    for i in range(n):
        env.check_vec('points of ray %d' % i, out['pos'][i], [q for p in data[i] for q in p])
        col = []
        for j in range(N):
            s = sc[i] if kind == 'rays' else sc[i][j]
            col += list(cmap((s - lo) / (hi - lo)))[:3]
        env.check('colors of ray %d' % i, np.allclose(out['color'][i], col))
    env.check('shape is refused', env.raises(ValueError, lambda: js.plot_rays(
        data.copy(), np.zeros(n + 1))))


class Hex:
    """Stands for the text made from a number."""
    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        return self

    def zfill(self, n):
        return self.v

    def __add__(self, o):
        return o


def tohex(env, color):
    u = env.imp('marxs.visualization.utils')
    if not env.symbolic:
        s = u.color_tuple_to_hex(color)
        env.check('form', s[:2] == '0x' and len(s) == 8)
        return int(s[2:], 16)
    C = env.C
    env.patch(u, 'hex', lambda v: Hex(v))
    env.patch(u, 'int', lambda v: env.num(C.floor(env.num(v))))
    env.patch(u, 'isinstance', lambda v, t: t is float)
    return u.color_tuple_to_hex(color)


@harness(timeout=60)
def hex_exact(env):
    """colors that are whole numbers of 1/255 in each channel."""
    k = [env.choice('k%d' % i, [0, 1, 58, 254, 255]) for i in range(3)]
    u = env.imp('marxs.visualization.utils')
    want = '0x%02x%02x%02x' % tuple(k)
    env.check('whole numbers', u.color_tuple_to_hex(tuple(k)) == want)
    env.check('fractions', u.color_tuple_to_hex(tuple(v / 255 for v in k)) == want)
    env.check('color from hex', all(abs(a - b / 255) < 1e-9 for a, b in zip(
        u.get_color({'color': '#' + want[2:]}), k)))


@harness(timeout=60)
def hex_blue(env):
    """any color with no red and green, or full red and green."""
    lo = env.choice('part', [0, 4])
    b = env.real('blue', env.num(lo) / 5, env.num(lo + 1) / 5)
    rg = env.choice('others', [0, 1])
    got = tohex(env, (env.num(rg), env.num(rg), b))
    env.check_near('blue', got - rg * 65535 * 256 , 255 * b, 1)


@harness(timeout=60)
def hex_any(env):
    """any green between two whole numbers of 1/255 and any small blue."""
    k = env.choice('k', [0, 100, 254])
    g = (env.num(k) + env.real('green', env.num(1) / 16, env.num(1) / 8)) / 255
    b = env.real('blue', 0, env.num(1) / 16)
    got = tohex(env, (env.num(0), g, b)) - 256 * k
    n = env.C.floor(got / 256) if env.symbolic else int(got // 256)
    env.check_near('green', n + k, 255 * g, 1)
    env.check_near('channel blue', got - 256 * n, 255 * b, 1)


@harness(timeout=60)
def settings(env):
    """display settings come from the display dictionary, or else from the geometry; the first
    shape that is known is used."""
    u = env.imp('marxs.visualization.utils')
    import warnings
    a, b, c = env.real('a'), env.real('b'), env.real('c')

    class Obj:
        pass
    o = Obj()
    has = env.choice('geometry', [False, True])
    if has:
        o.geometry = Obj()
        o.geometry.inner = a
        o.geometry.both = b
        o.geometry.shape = 'second'
    o.display = u.DisplayDict(o, both=c, color='red')
    env.check_eq('display comes first', o.display['both'], c)
    env.check_eq('display comes first', o.display.get('both', 0), c)
    if has:
        env.check_eq('geometry', o.display['inner'], a)
        env.check_eq('geometry', o.display.get('inner'), a)
        env.check_eq('geometry', o.display.get('inner', 3), a)
    else:
        env.check('nothing set', env.raises(KeyError, lambda: o.display['inner']))
        env.check('default', o.display.get('inner', 3) == 3 and o.display.get('inner') is None)
    o.display['inner'] = c
    env.check_eq('set later', o.display['inner'], c)
    if has:
        env.check_eq('geometry does not change', o.geometry.inner, a)
    log = []
    reg = {k: (lambda obj, display, k=k, **kw: log.append((k, obj, display, kw)) or k)
           for k in ('first', 'second')}
    shape = env.choice('shape', ['', 'first', 'second', 'first; second', 'second;first',
                                 'third; second', 'None', 'None; first', 'third; None', 'third'])
    known = [s.strip() for s in shape.split(';') if s.strip() in ('first', 'second', 'None')]
    if shape:
        o.display['shape'] = shape
    elif has:
        known = ['second']
    given = env.choice('given', [False, True])
    d = o.display
    if given:
        d = dict(o.display)
        d['color'] = (0.25, 0.5, 1.)
    w = []
    env.patch(warnings, 'warn', lambda *a, **k: w.append(a))
    r = u.plot_object_general(reg, o, d if given else None, extra=5)
    shp = known[:1] if not given or shape else []
    if not shp or shp[0] == 'None':
        env.check('not shown', r is None and not log)
        env.check('warning', bool(shp) == (not w))
    else:
        env.check('shown once', r == shp[0] and len(log) == 1)
        k, obj, disp, kw = log[0]
        env.check('what is shown', k == shp[0] and obj is o and kw == {'extra': 5})
        env.check('color', tuple(disp['color']) == ((0.25, 0.5, 1.) if given else (1., 0., 0.)))
        env.check_eq('settings', disp['both'], c)


@harness(timeout=60)
def written(env):
    """json files: one or several objects, with the keywords of the photons."""
    import io
    import json
    from astropy.table import Table
    js = env.imp('marxs.visualization.threejsjson')
    n = env.choice('objects', [1, 2, 3])
    single = env.choice('single', [False, True])
    ph = env.choice('photons', [False, True])
    obj = [{'n': 1, 'name': str(i), 'material': 'x', 'materialproperties': {'color': '#000000'},
            'geometry': 'BoxGeometry', 'geometrypars': [2, 2, 2],
            'pos4d': [[1., 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]]} for i in range(n)]
    t = Table({'energy': [1.]}, meta={'EXPOSURE': (5., 'time'), 'A': 'b'})
    f = io.StringIO()
    data = obj[0] if single and n == 1 else list(obj)
    js.write(f, data, photons=t if ph else None)
    got = json.loads(f.getvalue())
    env.check('objects', got['elements'] == obj)
    env.check('input is not changed', data == (obj[0] if single and n == 1 else obj))
    if ph:
        env.check('keywords of the photons', got['runinfo']['A'] == 'b' and
                  5. in (got['runinfo']['EXPOSURE'], got['runinfo']['EXPOSURE'][0]))


@harness(timeout=30)
def order_color(env):
    """every order has the color at its fraction of the largest order, the same for both signs;
    line styles tell the signs apart."""
    import matplotlib.pyplot as plt
    p = env.imp('marxs.analysis.plots')
    asked = []
    env.patch(plt, 'get_cmap', lambda name: asked.append(name) or (lambda x: [(v, 2) for v in x]))
    n = env.choice('largest order', [6, -6, 1, -15])
    name = env.choice('map', ['viridis', None])
    f = p.OrderColor(name, max_order=n) if name else p.OrderColor(max_order=n)
    env.check('color map', len(asked) == 1 and asked[0] == (name or 'nipy_spectral'))
    o = env.choice('order', sorted({0, 1, abs(n), abs(n) - 1}))
    plus, minus = f(o), f(-o)
    if o == 0:
        env.check('zeroth order', plus == minus and plus['color'] == 'k')
        return
    env.check_eq('color', plus['color'][0] * abs(n), o)
    env.check_eq('color of the negative order', minus['color'][0] * abs(n), o)
    env.check('line styles', plus['linestyle'] != minus['linestyle'])
    env.check('all colored orders look the same otherwise',
              {k: v for k, v in plus.items() if k not in ('color', 'linestyle')} ==
              {k: v for k, v in minus.items() if k not in ('color', 'linestyle')} and
              f(0)['lw'] != plus['lw'])
