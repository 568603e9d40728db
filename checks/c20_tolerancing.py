"""Tolerancing: moved, wiggled and changed elements; runs over parameters and energies."""
import itertools

from symx.worker import registry
from .elements import Frame, selector

HARNESSES, harness = registry()
NEEDS = ['marxs.missions.mitsnl.tolerances']
ASSUMPTIONS = [
    'Groups of 2 members at exact rational orientations; offsets, angles, sigmas and places are '
    'symbolic; random numbers are arbitrary.',
    'Up to 3 parameter sets, 2 energies and 3 steps of every degree of freedom.',
]
DOF = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']


def turn(env, rx, ry, rz):
    """First about x, then y, then z (fixed axes)."""
    n = env.np
    X = env.arr([[1, 0, 0], [0, n.cos(rx), -n.sin(rx)], [0, n.sin(rx), n.cos(rx)]])
    Y = env.arr([[n.cos(ry), 0, n.sin(ry)], [0, 1, 0], [-n.sin(ry), 0, n.cos(ry)]])
    Z = env.arr([[n.cos(rz), -n.sin(rz), 0], [n.sin(rz), n.cos(rz), 0], [0, 0, 1]])
    return env.matmul(Z, env.matmul(Y, X))


def step(env, p):
    return env.pos4d([p.get(k, 0) for k in DOF[:3]],
                     turn(env, *[p.get(k, env.num(0)) for k in DOF[3:]]), [1, 1, 1])


def params(env, name, which):
    """Some or all degrees of freedom."""
    d = {}
    for k in which:
        d[k] = env.real(name + k, -5, 5) if k[0] == 'd' else env.angle(name + k, -1, 1)
    return d


def group(env, k=5, c=(1, -2, 3)):
    """Group of two members with its first-principles placement."""
    sim, o = env.imp('marxs.simulator'), env.imp('marxs.optics.base')
    G = env.pos4d(list(c), env.rot(k), [1, 1, 1])
    e = [env.pos4d([3, 0, -1], env.rot(7), [1, 2, 1]), env.pos4d([0, 4, 2], env.rot(2), [1, 1, 1])]
    par = sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos=[x.copy() for x in e],
                       position=env.arr(list(c)), orientation=env.rot(k))
    return par, G, e


def at(env, name, el, *ms):
    want = ms[0]
    for m in ms[1:]:
        want = env.matmul(want, m)
    for i in range(4):
        env.check_vec('%s: row %d' % (name, i), el.geometry.pos4d[i], want[i])


E4 = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]


def about(env, e, M):
    """Moved in the axes of the group, turned about the centre of the member."""
    c, b = M.copy(), e.copy()
    for k in range(3):
        c[k][3] = M[k][3] + e[k][3]
        b[k][3] = env.num(0)
    return env.matmul(c, b)


WHICH = [DOF, ['dx', 'rz'], ['ry', 'rx'], ['dy', 'dz']]


@harness(timeout=80)
def groups(env):
    """groups moved as a whole, and members moved by the same amount, any offsets and angles;
    only the last move counts; zeros restore; groups that are not given stay."""
    t = env.imp('marxs.design.tolerancing')
    how = env.choice('how', ['moveglobal', 'moveindividual'])
    func = getattr(t, how)
    p = params(env, 'p', env.choice('which', WHICH))
    first = env.choice('first', [None, {'dx': 1, 'rz': 0.5, 'ry': 0.25}])
    listed = env.choice('list', [False, True])
    a, b, c = group(env), group(env, 3, (0, 5, -2)), group(env, 1)
    arg = [a[0], b[0]] if listed else a[0]
    if first is not None:
        func(arg, **{k: env.num(v) for k, v in first.items()})
    func(arg, **p)
    E = env.pos4d([0, 0, 0], env.rot(0), [1, 1, 1])
    for n, (par, G, e) in enumerate([a, b, c]):
        moved = n == 0 or (n == 1 and listed)
        M = step(env, p) if moved else E
        for i in range(2):
            if how == 'moveglobal':
                at(env, 'group %d' % n, par.elements[i], G, M, e[i])
            else:
                at(env, 'group %d' % n, par.elements[i], G, about(env, e[i], M))
    func(arg, **t.reset_6d)
    for n, (par, G, e) in enumerate([a, b, c]):
        for i in range(2):
            at(env, 'restored %d' % n, par.elements[i], G, e[i])


@harness(timeout=80)
def single(env):
    """single elements, moved repeatedly, any offsets and angles."""
    t = env.imp('marxs.design.tolerancing')
    o = env.imp('marxs.optics.base')
    fr = [Frame(env), Frame(env, 7, (0, 2, -1))]
    el = [o.FlatOpticalElement(**f.kwargs()) for f in fr]
    old = [e.geometry.pos4d.copy() for e in el]
    p = params(env, 'p', env.choice('which', WHICH))
    q = params(env, 'q', ['dy', 'rx'])
    arg = el if env.choice('list', [False, True]) else el[0]
    t.moveelem(arg, **q)
    t.moveelem(arg, **p)
    at(env, 'moved', el[0], step(env, p), old[0])
    if arg is el:
        at(env, 'moved 2', el[1], step(env, p), old[1])
    else:
        at(env, 'not moved', el[1], old[1])
    # the plane that rays hit moves with it
    env.check_vec('centre', el[0].geometry['center'], [el[0].geometry.pos4d[i][3]
                                                       for i in range(4)])
    env.check_vec('half width', el[0].geometry['v_y'], [el[0].geometry.pos4d[i][1]
                                                        for i in range(4)])
    t.moveelem(arg, **t.reset_6d)
    for i in range(2):
        at(env, 'restored %d' % i, el[i], old[i])


def gauss(env):
    return env.draws('normal', 'randn', 'standard_normal')


def find(env, used, name, got, form, exact=True):
    """got == form(z) for a normal number z that nothing else was made from."""
    for i, z in enumerate(gauss(env)):
        if i not in used and any(env.same(got, form(v)) for v in (z, -z)):
            used.add(i)
            env.check(name, True)
            return z if env.same(got, form(z)) else -z
    env.check(name, False)


def scattered(env, name, m, G, e, sig, used, off=None):
    """m = G @ about(e, step(random numbers with the given sigmas))"""
    m = env.matmul(env.arr(inverse(env, G)), m)
    M = env.matmul(m, env.arr(inverse(env, e)))
    for k in range(3):
        M[k][3] = m[k][3] - e[k][3]
    for j, k in enumerate(DOF[:3]):
        z = find(env, used, '%s: %s has a normal distribution with this sigma' % (name, k),
                 M[j][3], lambda v: sig.get(k, 0) * v) if k in sig else 0
        if k not in sig:
            env.check_eq('%s: %s is not changed' % (name, k), M[j][3], 0)
    rot = [k for k in DOF[3:] if k in sig]
    zs = [i for i in range(len(gauss(env))) if i not in used]
    ok = False
    for c in itertools.permutations(zs, len(rot)):
        a = {k: sig[k] * gauss(env)[i] for k, i in zip(rot, c)}
        if off is not None:
            a['ry'] = a.get('ry', env.num(0)) + off
        R = turn(env, *[a.get(k, env.num(0)) for k in DOF[3:]])
        if all(env.same(R[i][j], M[i][j]) for i in range(3) for j in range(3)):
            used.update(c)
            ok = True
            break
    env.check(name + ': rotations have a normal distribution with these sigmas', ok)


def inverse(env, m):
    """of a rotation with a shift"""
    R = [[m[j][i] for j in range(3)] for i in range(3)]
    c = [-env.dot(R[i], [m[j][3] for j in range(3)]) for i in range(3)]
    return [R[i] + [c[i]] for i in range(3)] + [[0, 0, 0, 1]]


@harness(timeout=80)
def wiggled(env):
    """members with random misalignment, any sigmas: every member and degree of freedom has its
    own random number; only the last call counts."""
    t = env.imp('marxs.design.tolerancing')
    o, sim = env.imp('marxs.optics.base'), env.imp('marxs.simulator')
    e = [env.pos4d([3, 0, -1], env.rot(7), [1, 1, 1]), env.pos4d([0, 4, 2], env.rot(2), [1, 1, 1])]
    G = env.pos4d([1, -2, 3], env.rot(5), [1, 1, 1])
    par = sim.Parallel(elem_class=o.FlatOpticalElement, elem_pos=[x.copy() for x in e],
                       position=env.arr([1, -2, 3]), orientation=env.rot(5))
    sig = {k: env.real('s' + k, env.num(1) / 100, 3)
           for k in env.choice('which', [['dx', 'dy', 'dz', 'rx'], ['dy', 'ry', 'rz'],
                                         ['rx', 'ry', 'rz']])}
    if env.choice('twice', [False, True]):
        t.wiggle(par, dx=1, ry=env.num(1) / 10)
        used = set(range(len(gauss(env))))
    else:
        used = set()
    t.wiggle([par] if env.choice('list', [0, 1]) else par, **sig)
    for i in range(2):
        scattered(env, 'member %d' % i, par.elements[i].geometry.pos4d, G, e[i], sig, used)
    t.wiggle(par, **t.reset_6d)
    for i in range(2):
        at(env, 'restored %d' % i, par.elements[i], G, e[i])


@harness(timeout=80)
def uncertainties(env):
    """misalignment matrices around any mean offset (one for all, or one for each)."""
    un = env.imp('marxs.design.uncertainties')
    s = {k: env.real('s' + k, env.num(1) / 100, 3) for k in ('dx', 'dz', 'ry')}
    k = env.choice('offset', ['one', 'each'])
    if k == 'one':
        t = [env.vec('t', 3)] * 2
        m = un.generate_facet_uncertainty(2, [s['dx'], 0, s['dz']], [0, s['ry'], 0],
                                          trans_offset=t[0].copy())
    else:
        t = [env.vec('t%d' % i, 3) for i in range(2)]
        m = un.generate_facet_uncertainty(2, [s['dx'], 0, s['dz']], [0, s['ry'], 0],
                                          trans_offset=env.arr([list(x) for x in t]))
    env.check('number', len(m) == 2)
    used = set()
    for i in range(2):
        b = env.pos4d(list(t[i]), env.rot(0), [1, 1, 1])
        scattered(env, 'matrix %d' % i, m[i], env.arr(E4), env.matmul(b, env.arr(E4)), s, used)


@harness(timeout=80)
def bars(env):
    """gratings with random tilts of their bars: the grating is turned against the tilt, any
    misalignment is added."""
    t = env.imp('marxs.missions.mitsnl.tolerances')
    cg, sim = env.imp('marxs.missions.mitsnl.catgrating'), env.imp('marxs.simulator')
    e = [env.pos4d([3, 0, -1], env.rot(7), [1, 1, 1]), env.pos4d([0, 4, 2], env.rot(2), [1, 1, 1])]
    G = env.pos4d([1, -2, 3], env.rot(5), [1, 1, 1])
    cls = cg.NonParallelCATGrating
    if env.choice('other', [False, True]):
        class Other(cg.NonParallelCATGrating):
            pass
        cls = Other
    par = sim.Parallel(elem_class=cls, elem_pos=[x.copy() for x in e],
                       position=env.arr([1, -2, 3]), orientation=env.rot(5),
                       elem_args={'d': env.num(1) / 1000, 'order_selector': selector(env)})
    m = env.real('tilt', env.num(1) / 100, 1)
    sig = {k: env.real('s' + k, env.num(1) / 100, 3)
           for k in env.choice('which', [['dx', 'ry'], ['dz', 'rx']])}
    if cls is not cg.NonParallelCATGrating:
        env.check('gratings of other kinds are refused', env.raises(
            sim.SimulationSetupError, lambda: t.wiggle_and_bar_tilt(par, max_bar_tilt=m, **sig)))
        return
    t.wiggle_and_bar_tilt(par, max_bar_tilt=m, **sig)
    used, uni = set(), set()
    for i in range(2):
        b = par.elements[i].blaze_center
        env.drawn('tilt of %d is evenly distributed' % i, [b], lambda v: [(2 * v - 1) * m], uni)
        scattered(env, 'grating %d' % i, par.elements[i].geometry.pos4d, G, e[i], sig, used,
                  off=-b)


@harness(timeout=60)
def changes(env):
    """periods, order selectors and other attributes of one or several elements."""
    t = env.imp('marxs.design.tolerancing')
    g = env.imp('marxs.optics.grating')
    o = env.imp('marxs.optics.base')
    el = [g.CATGrating(d=env.num(1) / 1000, order_selector=selector(env)) for i in range(3)]
    old = el[2].order_selector
    many = env.choice('many', [False, True])
    arg = el[:2] if many else el[0]
    how = env.choice('how', ['period', 'selector', 'attribute', 'missing'])
    plain = o.FlatOpticalElement()
    done = el[:2] if many else el[:1]
    if how == 'period':
        m, s = env.positive('mean', 1), env.positive('sigma', 1)
        t.varyperiod(arg, m, s)
        used = set()
        for e in done:
            find(env, used, 'drawn', e._d, lambda z: m + s * z)
    elif how == 'selector':
        a, b = env.real('a'), env.real('b')

        class Sel:
            def __init__(self, a, key=None):
                self.a, self.key = a, key
        t.varyorderselector(arg, Sel, a, key=b)
        for e in done:
            env.check('kind', type(e.order_selector) is Sel)
            env.check_eq('argument', e.order_selector.a, a)
            env.check_eq('keyword', e.order_selector.key, b)
    elif how == 'attribute':
        a, b = env.real('a'), env.real('b')
        for e in el:
            e.this, e.that = 1, 2
        t.varyattribute(arg, this=a, that=b)
        for e in done:
            env.check_eq('this', e.this, a)
            env.check_eq('that', e.that, b)
        env.check('not given', el[2].this == 1 and el[2].that == 2)
    else:
        env.check('no period', env.raises(ValueError, lambda: t.varyperiod(plain, 1, 0)))
        env.check('no selector', env.raises(
            ValueError, lambda: t.varyorderselector([plain], object)))
        env.check('no attribute', env.raises(
            ValueError, lambda: t.varyattribute(plain, thiz=3)))
        env.check('nothing added', not any(hasattr(plain, k) for k in
                                           ('_d', 'order_selector', 'thiz')))
    same = [el[2]] if many else el[1:]
    env.check('others are not changed', all(
        e._d == env.num(1) / 1000 and type(e.order_selector) is type(old) for e in same))


class Log(list):
    pass


def linear(env, sim, par, log):
    """energy -> a * energy + b of the current state of `par`, in place"""
    class Lin(sim.Sequence):
        def __init__(self):
            super().__init__(elements=[])

        def process_photons(self, photons):
            photons['energy'][:] = par['a'] * photons['energy'] + par['b']
            photons.meta['seen'] = 1
            log.append('instrum')
            return photons

        __call__ = process_photons
    return Lin()


@harness(timeout=60)
def runs(env):
    """every set of parameters is used once, in order, on the same photons."""
    t = env.imp('marxs.design.tolerancing')
    sim = env.imp('marxs.simulator')
    n = env.choice('n', [0, 1, 3])
    e = [env.real('e%d' % i) for i in range(2)]
    par = {'a': env.num(1), 'b': env.num(0)}
    log = []
    ins = linear(env, sim, par, log)
    parts = object()

    def wig(w, **kw):
        log.append('wiggle')
        env.check('parts', w is parts)
        par.update(kw)
    ph = env.photons(2, [[0, 0, 0, 1]] * 2, [[1, 0, 0, 0]] * 2, energy=e)
    sets = [{'a': env.real('a%d' % i), 'b': env.real('b%d' % i)} for i in range(n)]
    given = [dict(s) for s in sets]
    out = t.run_tolerances(ph, ins, wig, parts, given,
                           lambda p: {'r0': p['energy'][0], 'r1': p['energy'][1]})
    env.check('number', len(out) == n)
    env.check('order', log == ['wiggle', 'instrum'] * n)
    for i in range(n):
        env.check('columns', set(out[i]) == {'a', 'b', 'r0', 'r1'})
        for k in 'ab':
            env.check_eq('parameter', out[i][k], sets[i][k])
        for j in range(2):
            env.check_eq('result', out[i]['r%d' % j], sets[i]['a'] * e[j] + sets[i]['b'])
        env.check('parameters are kept', set(given[i]) == {'a', 'b'} and all(
            env.same(given[i][k], sets[i][k]) for k in 'ab'))
    for j in range(2):
        env.check_eq('photons are kept', ph['energy'][j], e[j])
    env.check('meta is kept', 'seen' not in ph.meta)


def source(env, log, k):
    import astropy.units as u

    class Source:
        energy = None

        def generate_photons(self, t):
            log.append(('source', t))
            v = self.energy.to(u.keV).value
            return env.photons(2, [[0, 0, 0, 1]] * 2, [[1, 0, 0, 0]] * 2,
                               energy=[v * k[0], v * k[1]])
    return Source()


@harness(timeout=60)
def energies(env):
    """every energy with every set of parameters, on photons of this energy; elements are reset
    at the end, if asked for."""
    import astropy.units as u
    t = env.imp('marxs.design.tolerancing')
    sim = env.imp('marxs.simulator')
    en = [env.real('en%d' % i, 1, 9) for i in range(2)]
    k = [env.real('k%d' % i, 1, 2) for i in range(2)]
    c = env.real('c', 1, 2)
    par = {'a': env.num(1), 'b': env.num(0)}
    log = []
    reset = env.choice('reset', [None, {'a': 1, 'b': 0}])
    split = env.choice('split', [False, True])
    unit = env.choice('unit', [False, True])

    def before(p):
        log.append('before')
        p['energy'] = p['energy'] * c
        return p

    class Grating(sim.Sequence):
        def __init__(self):
            super().__init__(elements=[])

        def __call__(self, photons):
            photons['energy'][:] = par['a'] * photons['energy'] + par['b']
            return photons

    class Special(Grating):
        pass

    def behind(p):
        p['energy'] = p['energy'] + 7
        return p
    kind = env.choice('kind', ['same', 'derived']) if split else 'same'
    gr = (Grating if kind == 'same' else Special)()
    parts = gr
    sets = [{'a': env.real('a%d' % i), 'b': env.real('b%d' % i)} for i in range(2)]

    def wig(w, **kw):
        if split:
            env.check('parts', len(w) == 1 and w[0] is gr)
        else:
            env.check('parts', w is parts)
        par.update(kw)

    def res(p):
        r = {'r0': p['energy'][0], 'r1': p['energy'][1]}
        if unit:
            r['r1'] = u.Quantity(env.arr([r['r1']]), u.cm)[0]
        return r
    qe = u.Quantity(env.arr(en), u.keV)
    src = source(env, log, k)
    if split:
        tab = t.run_tolerances_for_energies2(
            src, qe, sim.Sequence(elements=[before, gr, behind]), Grating, wig, sets, res,
            reset, subclass_ok=kind == 'derived', t_source=5 * u.s)
    else:
        tab = t.run_tolerances_for_energies(
            src, qe, before, sim.Sequence(elements=[gr, behind]), wig, parts, sets, res,
            reset, t_source=5 * u.s)
    env.check('rows', len(tab) == 4)
    env.check('runs before', log == [('source', 5 * u.s), 'before'] * 2)
    for i in range(2):
        for j in range(2):
            row = 2 * i + j
            v = lambda x: tab[x][row]
            env.check_eq('parameter', v('a'), sets[j]['a'])
            env.check_eq('parameter', v('b'), sets[j]['b'])
            for m in range(2):
                env.check_eq('result', v('r%d' % m),
                             sets[j]['a'] * en[i] * k[m] * c + sets[j]['b'] + 7)
            ee = u.Quantity(tab['energy'])[row].to(u.keV).value
            env.check_eq('energy', ee, en[i])
            w = u.Quantity(tab['wave'])[row].to(u.Angstrom).value
            env.check_near('wave', w * en[i], env.num(12398419843320025) / 10 ** 15, 1e-6)
    last = reset if reset is not None else sets[1]
    env.check_eq('state at the end', par['a'], last['a'])
    env.check_eq('state at the end', par['b'], last['b'])


@harness(timeout=80, max_paths=900)
def lists(env):
    """lists of single changes for any steps: every step of every degree of freedom, alone, with
    both signs or one; nothing twice."""
    import astropy.units as u
    t = env.imp('marxs.design.tolerancing')
    n, m = env.choice('steps', [(2, 3), (3, 2), (1, 2)])
    tr = [env.num(0)] + [env.real('t%d' % i, env.num(1) / 10, 5) for i in range(n - 1)]
    ro = [env.num(0)] + [env.real('r%d' % i, env.num(1) / 10, 5) for i in range(m - 1)]
    if n == 3:
        env.assume(tr[1] < tr[2])
    if m == 3:
        env.assume(ro[1] < ro[2])
    ut, ur = env.choice('units', [(u.mm, u.rad), (u.cm, u.deg)])
    names = env.choice('names', [DOF, ['a', 'b', 'c', 'd', 'e', 'f']])
    kw = {} if names is DOF else {'names': names}
    both, one = t.generate_6d_wigglelist(u.Quantity(env.arr(tr), ut), u.Quantity(env.arr(ro), ur),
                                         **kw)
    ft, fr = (1, 1) if ut is u.mm else (10, env.PI / 180)
    want = [(None, 0)]
    for k in range(6):
        for v in (tr if k < 3 else ro)[1:]:
            want.append((k, v * (ft if k < 3 else fr)))
    env.check('number of one-sided changes', len(one) == len(want))
    env.check('number of changes', len(both) == 2 * len(want) - 1)
    full = want + [(k, -v) for k, v in want[1:]]
    for name, got, exp in (('one-sided', one, want), ('both', both, full)):
        todo = list(got)
        for k, v in exp:
            hit = [g for g in todo if set(g) == set(names) and all(
                env.same(g[x], v if j == k else 0) for j, x in enumerate(names))]
            env.check('%s: is in the list' % name, len(hit) == 1)
            todo = [g for g in todo if not any(g is h for h in hit)]
        env.check('%s: nothing else' % name, not todo)


@harness(timeout=60)
def select(env):
    """rows of a table in which only one parameter is changed."""
    from astropy.table import Table
    t = env.imp('marxs.design.tolerancing')
    v = [[env.real('%s%d' % (k, i), -2, 2) for k in ('dx', 'dy', 'rz')] for i in range(2)]
    tab = Table({'dx': env.arr([r[0] for r in v]), 'dy': env.arr([r[1] for r in v]),
                 'rz': env.arr([r[2] for r in v]), 'R': [10, 20]})
    par = env.choice('par', ['dx', 'dy'])
    names = env.choice('names', [['dx', 'dy', 'rz'], ['dx', 'dy']])
    got = t.select_1dof_changed(tab, par, names)
    left = list(got['R'])
    for i in range(2):
        is0 = True
        for j, k in enumerate(('dx', 'dy', 'rz')):
            if k in names and k != par and v[i][j] != 0:
                is0 = False
        env.check('selected', (tab['R'][i] in left) == is0)
    env.check('order', left == sorted(left) and len(tab) == 2)
