"""What is recorded in photon lists: columns, versions, consistency of simulations, tables."""
from symx.worker import registry
from .elements import Frame

HARNESSES, harness = registry()
NEEDS = ['marxs.base', 'marxs.utils', 'marxs.optics.base', 'marxs.analysis.run_helpers']
ASSUMPTIONS = [
    'Tables have up to 3 rows and 12 entries; values are symbolic. Time and version of the code '
    'are those of the run.',
]


@harness(timeout=60)
def columns(env):
    """elements add the columns they need with the initial value asked for; columns that exist
    keep their values, however often it is done."""
    b = env.imp('marxs.base')
    from astropy.table import Table
    import numpy
    had = env.choice('columns in the list', [[], ['a'], ['b'], ['id', 'c']])
    v = [env.real('v%d' % i, -9, 9) for i in range(2)]
    x = env.real('initial', -9, 9)
    spec = {'name': 'c', 'value': x, 'dtype': object if env.symbolic else float}
    ispec = {'name': 'd', 'value': 7, 'dtype': int}
    # an element may name a column that another one has already made
    idc = env.choice('id', ['id', None])
    cls = type('T', (b.SimulationSequenceElement,), {'output_columns': ['a', None, spec]})
    el = cls(id_col=idc, id_num=3) if idc else cls()
    other = type('U', (b.SimulationSequenceElement,), {'output_columns': ['b', spec]})()
    t = Table({'q': env.arr([1, 2])})
    for c in had:
        t[c] = env.arr(v)
    extra = ['b', ispec, {'name': 'e'}, None]
    for k in range(2):
        el.add_output_cols(t, extra)
        other.add_output_cols(t)
        name = 'time %d ' % k
        want = {'q', 'a', 'b', 'c', 'd', 'e'} | set(had) | ({'id'} if idc else set())
        env.check(name + 'names of columns', set(t.colnames) == want)
        for c in had:
            env.check_vec(name + 'kept ' + c, t[c], v)
        for i in range(2):
            for c in 'ab':
                if c not in had:
                    env.check(name + 'not set ' + c, env.isnan(t[c][i]))
            if 'c' not in had:
                env.check_eq(name + 'value of c', t['c'][i], x)
            env.check(name + 'value of d', int(t['d'][i]) == 7)
            if idc and 'id' not in had:
                env.check(name + 'value of id', int(t['id'][i]) == -1)
        for c in ('d', 'id'):
            if c in t.colnames and c not in had:
                env.check(name + 'type of ' + c, numpy.issubdtype(t[c].dtype, numpy.integer))
        env.check(name + 'arguments', extra == ['b', ispec, {'name': 'e'}, None] and
                  set(spec) == {'name', 'value', 'dtype'} and
                  ispec == {'name': 'd', 'value': 7, 'dtype': int} and
                  cls.output_columns == ['a', None, spec])
        env.check(name + 'number', el.id_num == (3 if idc else -9))


@harness(timeout=60)
def tags(env):
    """everything given at the start or in a call is in the header, with version and date;
    nothing else is changed."""
    b = env.imp('marxs.base')
    from astropy.table import Table
    import datetime
    import marxs
    t = Table({'q': env.arr([1, 2])})
    x = env.real('old', -9, 9)
    t.meta['OLD'] = x
    t.meta['OBSERVER'] = 'before'
    v, w = env.real('v', -9, 9), env.real('w', -9, 9)
    kw = {}
    if env.choice('origin', [0, 1]):
        kw['ORIGIN'] = ('my house', 'place')
    if env.choice('creator', [0, 1]):
        kw['CREATOR'] = 'me'
    tag = b.TagVersion(OBSERVER='after', VALUE=v, **kw)
    call = env.choice('call', [{}, {'VALUE': 1, 'NEW': 2}])
    call = {k: (w if k == 'VALUE' else v + 1) for k in call}
    day = datetime.datetime.now().isoformat()[:10]
    out = tag(t, **call)
    env.check('same list', out is t and t.colnames == ['q'])
    env.check_vec('column', t['q'], [1, 2])
    m = t.meta

    def text(x):
        return x[0] if isinstance(x, tuple) else x
    env.check('origin', m['ORIGIN'] == kw.get('ORIGIN', m['ORIGIN']) and
              isinstance(text(m['ORIGIN']), str))
    env.check('creator', text(m['CREATOR']) == kw.get('CREATOR', 'MARXS'))
    env.check('observer', m['OBSERVER'] == 'after')
    env.check_eq('old', m['OLD'], x)
    env.check_eq('value', m['VALUE'], call.get('VALUE', v))
    if call:
        env.check_eq('from the call', m['NEW'], v + 1)
    ver = text(m['MARXSVER'])
    env.check('version', len(ver) > 0 and marxs.__version__.startswith(ver))
    env.check('date', day <= text(m['DATE']) <= datetime.datetime.now().isoformat()[:10])
    if call:      # keywords of one call are not those of the next
        t2 = tag(Table({'q': [1]}))
        env.check_eq('second list', t2.meta['VALUE'], v)
        env.check('second list has only its own', 'NEW' not in t2.meta)


@harness(timeout=60)
def consistent(env):
    """headers are consistent if and only if every keyword asked for is the same in both, or
    missing in both where this is allowed."""
    b = env.imp('marxs.base')
    v = [env.real('v%d' % i, -9, 9) for i in range(2)]
    k = env.choice('keyword', ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM', 'OTHER'])
    where = env.choice('where', ['both', 'first', 'second', 'none'])
    meta = [{'ORIGIN': 1, 'CREATOR': 2, 'MARXSVER': 3, 'MARXSGIT': 4, 'MARXSTIM': 5},
            {'MARXSTIM': 5, 'MARXSGIT': 4, 'MARXSVER': 3, 'CREATOR': 2, 'ORIGIN': 1}]
    for i, w in enumerate(('first', 'second')):
        if where in ('both', w):
            meta[i][k] = v[i]
        else:
            meta[i].pop(k, None)
    allow = env.choice('allowed', ['default', True, False])
    kw = {} if allow == 'default' else {'allow_missing': allow}
    own = env.choice('keywords', [False, True])
    if own:
        kw['keywords'] = ['ORIGIN', 'OTHER']
        for m in meta:
            m['OTHER'] = m.get('OTHER', 5) if k != 'OTHER' else m.get(k)
            if k == 'OTHER' and m[k] is None:
                del m[k]
    asked = k in kw.get('keywords', ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM'])
    got = 'ok'
    try:
        b.check_meta_consistent(meta[0], meta[1], **kw)
    except AssertionError:
        got = 'different'
    except KeyError:
        got = 'missing'
    if not asked:
        env.check('keyword that is not asked for', got == 'ok')
    elif where == 'both':
        env.check('same', env.or_(got == 'ok', env.not_(env.eq(v[0], v[1]))))
        env.check('different', env.or_(got == 'different', env.eq(v[0], v[1])))
    elif where == 'none':
        env.check('missing in both', got == ('missing' if allow is False else 'ok'))
    else:
        env.check('missing in one', got == 'missing')


@harness(timeout=60)
def one_energy(env):
    """lists where any photon has another energy are refused, lists without energies are not."""
    b = env.imp('marxs.base')
    from astropy.table import Table
    n = env.choice('n', [1, 2, 3])
    e = [env.real('e%d' % i, env.num(1) / 10, 10) for i in range(n)]
    t = Table({'energy': env.arr(e)})
    bad = env.raises(AssertionError, lambda: b.check_energy_consistent(t))
    big = env.or_(False, *[env.or_(x - e[0] > e[0] / 1000, e[0] - x > e[0] / 1000) for x in e])
    env.check('different energies are refused', env.or_(bad, env.not_(big)))
    env.check('same energies are accepted', env.or_(
        not bad, env.not_(env.and_(True, *[env.eq(x, e[0]) for x in e]))))
    b.check_energy_consistent(Table({'q': env.arr(e)}))


@harness(timeout=60)
def photons(env):
    """list of photons for tests; simulation of one energy: source and pointing of the same
    place, the energy in any unit and the number of photons asked for."""
    ut = env.imp('marxs.utils')
    import astropy.units as u
    n = env.choice('n', [1, 3])
    t = ut.generate_test_photons(n) if n > 1 else ut.generate_test_photons()
    env.check('number', len(t) == n)
    for i in range(n):
        env.check_vec('position', t['pos'][i], [1, 0, 0, 1])
        env.check_vec('direction', t['dir'][i], [-1, 0, 0, 0])
        env.check_vec('polarization', t['polarization'][i], [0, 1, 0, 0])
        env.check_eq('energy', t['energy'][i], 1)
        env.check_eq('probability', t['probability'][i], 1)
    env.check('unit', t['energy'].unit == u.keV)
    rh = env.imp('marxs.analysis.run_helpers')
    rec = {}

    class Source:
        def __init__(self, **kw):
            rec['source'] = kw

        def generate_photons(self, time, **kw):
            rec['time'] = time
            return ['list']

    class Pointing:
        def __init__(self, **kw):
            rec['pointing'] = kw

        def __call__(self, p):
            return p + ['pointing']
    env.patch(rh, 'PointSource', Source)
    env.patch(rh, 'FixedPointing', Pointing)
    e = u.Quantity(env.arr([env.real('e', 0, 9)]), u.keV)[0]
    kw = {}
    if env.choice('number', [0, 1]):
        kw['n_photons'] = 55
    mat = env.pos4d([0, 0, 0], env.rot(5), [1, 1, 1])
    if env.choice('transform', [0, 1]):
        kw['reference_transform'] = mat
    else:
        mat = env.pos4d([0, 0, 0], env.rot(0), [1, 1, 1])
    out = rh.monoenergetic_astrosimulation(lambda p: p + ['instrument'], e, **kw)
    env.check('order', out == ['list', 'pointing', 'instrument'])
    env.check('energy of the source', rec['source']['energy'] is e)
    env.check('in the direction of the source',
              rec['source']['coords'] is rec['pointing']['coords'])
    area = rec['source'].get('geomarea', u.cm**2)
    nn = (rec['time'] * rec['source']['flux'] * area).to(u.dimensionless_unscaled).value
    env.check_near('number of photons', float(nn), kw.get('n_photons', 20000), 1e-6)
    for i in range(4):
        env.check_vec('transform', env.arr(rec['pointing']['reference_transform'])[i], mat[i])


@harness(timeout=60)
def grid(env):
    """tables on a grid are found again as arrays with all values in place; tables that are not
    sorted or miss values are refused."""
    ut = env.imp('marxs.utils')
    from astropy.table import Table
    import astropy.units as u
    if env.symbolic:       # symbolic numbers have no hash
        def distinct(a):
            out = []
            for v in a:
                if not any(env.eq(v, w) for w in out):
                    out.append(v)
            return out
        env.patch(ut, 'set', distinct)
    nx, ny = env.choice('shape', [(2, 3), (3, 2), (1, 4), (4, 1), (2, 2)])
    dx = [env.positive('dx%d' % i, hi=9) + 1 for i in range(nx)]
    dy = [env.positive('dy%d' % i, hi=9) + 1 for i in range(ny)]
    x = [env.num(1)]
    y = [env.num(2)]
    for i in range(1, nx):
        x.append(x[-1] + dx[i])
    for i in range(1, ny):
        y.append(y[-1] + dy[i])
    if env.choice('falling', [False, True]):
        x, y = x[::-1], y[::-1]
    v = [[env.real('v%d%d' % (i, j), -9, 9) for j in range(ny)] for i in range(nx)]
    rows = [(i, j) for i in range(nx) for j in range(ny)]
    bad = env.choice('bad', ['no', 'order', 'swapped', 'missing'])
    n = len(rows)
    if bad == 'order':
        rows = [(i, j) for j in range(ny) for i in range(nx)]
    elif bad == 'swapped':
        k = env.choice('first', list(range(n - 1)))
        rows[k], rows[k + 1] = rows[k + 1], rows[k]
    elif bad == 'missing':
        rows = rows[:-1]
    if bad == 'missing' and (nx == 1 or ny == 1) or bad == 'order' and (nx == 1 or ny == 1) or \
            bad == 'swapped' and (nx == 1 or ny == 1):
        return      # still a grid
    t = Table()
    t['x'] = env.arr([x[i] for i, j in rows])
    t['y'] = env.arr([y[j] for i, j in rows])
    t['v'] = env.arr([v[i][j] for i, j in rows])
    t['w'] = env.arr([i + 10 * j for i, j in rows])
    t['x'].unit = u.keV
    if bad != 'no':
        env.check('refused: ' + bad, env.raises(ut.DataFileFormatException,
                                                lambda: ut.tablerows_to_2d(t)))
        return
    a, b, (c, d) = ut.tablerows_to_2d(t)
    env.check_vec('first axis', a, x)
    env.check_vec('second axis', b, y)
    env.check('unit', a.unit == u.keV)
    env.check('shape', c.shape == d.shape == (nx, ny))
    for i in range(nx):
        env.check_vec('values %d' % i, c[i], v[i])
        env.check_vec('second values %d' % i, d[i], [i + 10 * j for j in range(ny)])


@harness(timeout=60)
def local(env):
    """functions that need local coordinates get them, results are put back in place; other
    columns are not touched."""
    ob = env.imp('marxs.optics.base')
    fr = Frame(env, env.choice('rot', [0, 5]), env.vec('c'),
               (env.choice('zx', [1, 3]), env.positive('zy', hi=9), 2))
    x, y = env.vec('x'), env.vec('y')
    seen = []

    class El:
        pos4d = env.pos4d(list(fr.c), fr.R, list(fr.zoom))

        @ob.photonlocalcoords
        def f(self, photons, arg, more=None):
            seen.append((photons['pos'].data.copy(), photons['dir'].data.copy(), arg, more))
            photons['pos'] = env.arr([[y[0], y[1], y[2], 1]])
            photons['dir'] = env.arr([[x[2], x[0], x[1], 0]])
            return photons
    z = fr.zoom
    p = env.photons(1, pos=env.arr([fr.pos([z[i] * x[i] for i in range(3)])]),
                    dir=env.arr([fr.dir([z[i] * y[i] for i in range(3)])]),
                    pol=env.arr([[1, 2, 3, 0]]))
    p = El().f(p, 5, more=6)
    env.check_vec('local position', seen[0][0][0], list(x) + [1])
    env.check_vec('local direction', seen[0][1][0], list(y) + [0])
    env.check('arguments', seen[0][2:] == (5, 6) and len(seen) == 1)
    env.check_vec('position', p['pos'][0], fr.pos([z[i] * y[i] for i in range(3)]))
    env.check_vec('direction', p['dir'][0], fr.dir([z[0] * x[2], z[1] * x[0], z[2] * x[1]]))
    env.check_vec('others', p['polarization'][0], [1, 2, 3, 0])


@harness(timeout=30)
def documented(env):
    """methods without description take that of the class they come from; unknown arguments are
    refused, names are kept."""
    b = env.imp('marxs.base')

    class A(b.MarxsElement):
        def f(self):
            'first'

        def g(self):
            'second'

    class B(A):
        def f(self):
            pass

        def g(self):
            'third'

        def h(self):
            pass

    class C(B):
        def f(self):
            pass

        def g(self):
            pass
    env.check('taken', B.f.__doc__ == 'first' and C.f.__doc__ == 'first')
    env.check('own', B.g.__doc__ == 'third' and A.g.__doc__ == 'second')
    env.check('from the nearest', C.g.__doc__ == 'third')
    env.check('none', B.h.__doc__ is None)
    n = env.choice('name', ['mirror', None])
    el = C(name=n) if n else C()
    env.check('name', el.name == (n or C) and el.describe()['element'] == (n or C))
    env.check('refused', env.raises(ValueError, lambda: C(nme='a')))
    one, two = C(), C()
    one.display['color'] = 'r'
    env.check('settings are not shared', 'color' not in two.display and
              'color' not in C.display)
