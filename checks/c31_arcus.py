"""Arcus and its sisters: assembly, alignment, zeroth order, effective areas, responses, grids."""
from symx.worker import registry
from .elements import Frame
from .c28_missions import CHAN, Rows, axis, no_polarization
from .c21_response import hc, Key

HARNESSES, harness = registry()
NEEDS = ['marxs.missions.arcus.arcus', 'marxs.missions.arcus.arfrmf',
         'marxs.missions.arcus.analyze_grid', 'marxs.missions.lynx.lynx',
         'marxs.missions.AXIS.AXIS', 'marxs.missions.arcus.load_csv', 'marxs.reduction.ogip']
ASSUMPTIONS = [
    "Arcus' calibration files are not distributed: tables are stand-ins with symbolic entries. "
    'scipy interpolation is replaced by the value at the nodes of the table, line profiles '
    '(sherpa) by any function of the edges; files are replaced by tables in memory.',
    'Up to 3 bins, 2 chips, 2 files and 3 orders.',
]


class Torus:
    def __init__(self, r):
        self.r = r


@harness(timeout=100)
def zero_order(env):
    """rays to the focus of any channel are detected at the position of the zeroth order; what
    is projected first and what is detected on chips is found in its own columns."""
    a = env.imp('marxs.missions.arcus.arcus')
    ag = env.imp('marxs.missions.arcus.analyze_grid')
    chan = env.choice('channel', list(CHAN))
    r = env.num(6000)
    sn, cs = env.choice('t', [(env.num(20) / 101, env.num(99) / 101), (env.num(0), env.num(1)),
                              (env.num(-40) / 401, env.num(399) / 401)])
    y0 = env.real('y', -15, 15)
    x0 = r * sn
    conf = {'rowland_detector': Torus(r), 'd': r * 3 / 5,
            'pos_opt_ax': {c: (env.arr([x0, y0, 0, 1]) if c == chan else env.arr([1, 2, 0, 1]))
                           for c in CHAN}}
    seen = []

    class Cam:
        def __init__(self, c):
            env.check('settings of the chips', c is conf)

        def __call__(self, p):
            seen.append(list(p['pos'][0]))
            p['CCD'] = env.arr([3])
            return p
    env.patch(a, 'DetCamera', Cam)
    els = a.PerfectArcus.add_detectors(None, conf)
    z0 = r * 4 / 5 - r * cs
    d = [env.num(3) / 13, env.num(4) / 13, env.num(-12) / 13]
    p = env.photons(1, pos=env.arr([[x0 - 130 * d[0], y0 - 130 * d[1], z0 - 130 * d[2], 1]]),
                    dir=env.arr([d + [0]]))
    p = els[0](p)
    for i, v in enumerate((x0, y0, z0)):
        env.check_near('focus', p['pos'][0][i], v, 1e-6)
    phi = p['circ_phi'][0]
    env.check_near('angle', env.sin(phi) * r, x0, 1e-6)
    env.check_lt('at the bottom', 0, env.cos(phi))
    env.check_near('angle of the zeroth order', env.sin(ag.zeropos('circ_phi', chan, conf)),
                   env.sin(phi), 1e-6)
    env.check_near('height', p['circ_y'][0], ag.zeropos('circ_y', chan, conf), 1e-6)
    env.check_eq('x in the plane', ag.zeropos('proj_x', chan, conf), x0)
    env.check_eq('y in the plane', ag.zeropos('proj_y', chan, conf), y0)
    env.check('other coordinates', env.raises(
        NotImplementedError, lambda: ag.zeropos('det_x', chan, conf)))
    for e in els[1:]:
        p = e(p)
    for n, flat in (('projcirc_', [x0, y0]), ('proj_', seen[0][:2])):
        env.check_near(n + 'x', p[n + 'x'][0], flat[0], 1e-6)
        env.check_near(n + 'y', p[n + 'y'][0], flat[1], 1e-6)
    env.check('chips see the ray once', len(seen) == 1)
    # the chips are not behind the place where the ray was detected first
    for i, v in enumerate((x0, y0, z0)):
        env.check_near('chips see the ray from above', seen[0][i], v - 100 * d[i], 1e-6)


class El:
    log = []

    def __init__(self, conf, channels):
        El.log.append((self, conf, channels))

    def __call__(self, p):
        return p


@harness(timeout=60)
def assembly(env):
    """parts in their order with the settings and channels asked for; parts that are switched
    off are missing."""
    a = env.imp('marxs.missions.arcus.arcus')
    El.log = []
    parts = ['aper_class', 'spo_class', 'gratings_class', 'filter_and_qe_class']
    cls = {n: type(n, (El,), {}) for n in parts}
    off = env.choice('off', [[], ['filter_and_qe_class'], ['gratings_class', 'aper_class']])
    kind = env.choice('kind', ['PerfectArcus', 'ArcusForPlot', 'ArcusForSIXTE'])
    base = getattr(a, kind)
    body = {n: (None if n in off else c) for n, c in cls.items()}
    if kind == 'ArcusForSIXTE':
        del body['filter_and_qe_class']
        off = sorted(set(off + ['filter_and_qe_class']))
    boom, det = object(), object()

    class Boom(El):
        def __init__(self):
            pass

    class Det(El):
        def __init__(self):
            pass
    boom, det = Boom(), Det()
    asked = []
    body['add_boom'] = lambda self, c: asked.append(c) or [boom]
    body['add_detectors'] = lambda self, c: asked.append(c) or [det]
    conf = {'alignmentbudget': []}
    ch = env.choice('channels', [None, ['1', '2m']])
    kw = {} if ch is None else {'channels': ch}
    inst = type('T', (base,), body)(conf=conf, **kw)
    on = [n for n in parts if n not in off]
    env.check('settings', all(c is conf for c in asked) and len(asked) == 2)
    env.check('each part once', [type(e).__name__ for e, _, _ in El.log] == on)
    env.check('settings of the parts', all(c is conf for _, c, _ in El.log))
    env.check('channels', all(list(c) == (ch or ['1', '1m', '2', '2m']) for _, _, c in El.log))
    want = [e for e, _, _ in El.log] + [boom, det, a.tagversion]
    env.check('order', len(inst.elements) == len(want) and
              all(x is y for x, y in zip(inst.elements, want)))
    env.check('positions are recorded', inst.KeepPos in inst.postprocess_steps)


@harness(timeout=60)
def aligned(env):
    """every row of the table of tolerances is applied once, in order, to the elements of its
    class, with all numbers of the row."""
    which = env.choice('mission', ['arcus', 'lynx', 'AXIS'])
    mod = env.imp('marxs.missions.%s.%s' % (which, which))
    name = {'arcus': 'Arcus', 'lynx': 'Lynx', 'AXIS': 'AXIS'}[which]
    cls = getattr(mod, name)
    made = []
    env.patch(getattr(mod, 'Perfect' + name), '__init__', lambda self, **kw: made.append(kw))
    kinds = ['global', 'individual'] + (['individual_with_tilt'] if which == 'arcus' else [])
    rows, log, groups = [], [], {}
    for i in range(2):
        k = env.choice('kind %d' % i, kinds)
        rows.append([('class', i), k, None, [env.real('t%d_%d' % (i, j), -9, 9)
                                             for j in range(6)], 'text'])
        groups[('class', i)] = [object(), object()]
    env.patch(cls, 'elements_of_class', lambda self, c, *a, **k: groups[c])
    for f, k in (('moveglobal', 'global'), ('wiggle', 'individual')):
        env.patch(mod.tol, f, lambda e, *a, k=k: log.append((e, k, a)))
    if which == 'arcus':
        env.patch(mod, 'wiggle_and_bar_tilt',
                  lambda e, *a: log.append((e, 'individual_with_tilt', a)))
    conf = {'alignmentbudget': rows}
    if env.choice('unknown', [False, True]):
        rows.append([('class', 0), 'sideways', None, [0] * 6, 'text'])
        env.check('refused', env.raises(NotImplementedError, lambda: cls(conf=conf)))
    else:
        cls(conf=conf)
    env.check('settings', len(made) == 1 and made[0]['conf'] is conf)
    env.check('each once', len(log) == 2)
    for i in range(2):
        e, k, t = log[i]
        env.check('elements', e is groups[('class', i)])
        env.check('kind', k == rows[i][1])
        env.check_vec('numbers', list(t), rows[i][3])


@harness(timeout=100)
def onchip(env):
    """a wavelength is on a chip if and only if the ray that is diffracted by this order at the
    distance of the grating meets one of the chips between its edges."""
    ar = env.imp('marxs.missions.arcus.arfrmf')
    import astropy.units as u
    chan = env.choice('channel', ['1', '2m'])
    side = env.choice('side', [-1, 1])
    x0 = side * env.real('x0', 300, 400)
    f = env.num(11000)
    period = [env.num(2) / 10 ** 4, env.num(22) / 10 ** 5]
    env.patch(ar, 'load_table', lambda d, n: {('gratings', 'facets'): Fac}[(d, n)])

    from astropy.table import Table
    Fac = Table()
    Fac['period'] = env.arr(period)
    Fac['period'].unit = u.mm
    # chips are at the angle (sine) s0..s1 seen from the grating
    half = env.real('w', 5, 15)
    c1 = env.real('c1', -300, 300)
    cs = [c1, env.num(450)]
    zs = [env.num(5), env.num(-3)]

    class Cam:
        def __init__(self, conf):
            self.elements = []
            for i in range(2):
                sgn = env.choice('chip turned', [1, -1]) if i == 0 else 1
                g = {'center': env.arr([cs[i], 7, zs[i], 1]),
                     'v_y': env.arr([sgn * half, 0, sgn * i, 0])}
                self.elements.append(type('E', (), {'geometry': g})())
    env.patch(ar, 'DetCamera', Cam)
    conf = {'pos_opt_ax': {c: env.arr([x0 if c == chan else 1000, 2, 0, 1]) for c in CHAN},
            'f': f, 'blazeang': 0}
    on = ar.OnCCD(conf)
    order = env.choice('order', [-2, 0, 3])
    t = [env.angle('t%d' % i, env.num(-1) / 10, env.num(1) / 10) for i in range(1)] \
        if order else [env.num(0)]
    mean = (period[0] + period[1]) / 2
    # the wavelength that is diffracted to the angle t
    wave = [env.sin(x) * mean * 10 ** 7 / order if order else env.num(10) for x in t]
    if order:
        env.assume(wave[0] > 0)
    got = on(u.Quantity(env.arr(wave), u.Angstrom), order, chan)
    for k in range(1):
        tan = env.sin(t[k]) / env.cos(t[k]) if order else env.num(0)
        inside = False
        for i in range(2):
            e = []
            for s in (-1, 1):
                # offset of the edge from the ray, at the height of the edge
                e.append((cs[i] + s * half - x0) * side - tan * (f - zs[i] - s * i))
            inside = env.or_(inside, env.and_(e[0] > 0, e[1] < 0), env.and_(e[0] < 0, e[1] > 0))
        env.check('on a chip', env.or_(bool(got[k]), env.not_(inside)))
        env.check('not on a chip', env.or_(not bool(got[k]), inside))


@harness(timeout=60)
def areas(env):
    """effective area: product of the area of mirrors and gratings, filters and detectors and
    the number of channels where the energy is on a chip; increasing energies."""
    ar = env.imp('marxs.missions.arcus.arfrmf')
    import astropy.units as u
    n = 2
    order = env.choice('order', [-5, 0])
    wave = env.choice('wave', [False, True])
    e = [env.real('e0', env.num(1) / 4, 1)]
    for i in range(n):
        e.append(e[-1] + env.real('de%d' % i, env.num(1) / 10, 1))
    x = [hc(env) / v for v in e] if wave else list(e)
    if env.choice('falling', [False, True]):
        x = x[::-1]
    mg = [env.positive('mg%d' % i, hi=9) for i in range(n)]
    fq = [env.real('fq%d' % i, 0, 1) for i in range(n)]
    ax = {'1': 0, '1m': 1, '2': 2, 'new': 3} if env.choice('conf', [0, 1]) else \
        {c: 0 for c in CHAN}
    conf = {'pos_opt_ax': ax}
    chans = env.choice('channels', [[0], [1, 3], [0, 1, 2, 3]])
    chans = [list(ax)[i] for i in chans]
    seen = []

    def near(q):
        q = u.Quantity(q).to(u.keV).value
        for i in range(n):
            env.check_near('middle of the bin', q[i], (e[i] + e[i + 1]) / 2, 1e-6)

    class On:
        def __init__(self, c):
            env.check('settings', c is conf)

        def __call__(self, en, o, c):
            near(en)
            seen.append((o, c))
            import numpy as np
            return np.array([c in ('1', 'new', '2'), c in ('1', '1m')])
    env.patch(ar, 'OnCCD', On)

    def mirr(en, o):
        near(en)
        env.check('order of the gratings', o == order)
        return u.Quantity(env.arr(mg), u.cm**2)

    def filt(en):
        near(en)
        return env.arr(fq)
    arf = ar.mkarf(u.Quantity(env.arr(x), u.Angstrom if wave else u.keV), order, mirr_grat=mirr,
                   trans_filters_qe=filt, conf=conf, channels=chans)
    env.check('channels', seen == [(order, c) for c in chans])
    num = [len([c for c in chans if c in ('1', 'new', '2')]),
           len([c for c in chans if c in ('1', '1m')])]

    def col(k, unit=None):
        if k not in arf.colnames:
            return [arf.meta[k]] * n
        v = u.Quantity(arf[k])
        return list((v.to(unit) if unit else v).value)
    for i in range(n):
        env.check_near('lower energy', col('ENERG_LO', u.keV)[i], e[i], 1e-6)
        env.check_near('upper energy', col('ENERG_HI', u.keV)[i], e[i + 1], 1e-6)
        env.check_near('lower wavelength', col('BIN_LO', u.Angstrom)[i] * e[i + 1], hc(env), 1e-5)
        env.check_near('upper wavelength', col('BIN_HI', u.Angstrom)[i] * e[i], hc(env), 1e-5)
        env.check_eq('mirror and gratings', col('MIRROR_GRAT', u.cm**2)[i], mg[i])
        env.check_eq('filters', col('FILTERS_QE')[i], fq[i])
        env.check_eq('on chips', col('ONCCD')[i], num[i])
        env.check_eq('area', col('SPECRESP', u.cm**2)[i], mg[i] * fq[i] * num[i])
    env.check('keyword for the channels', arf.meta['ARCCHAN'] ==
              ''.join('1' if c in chans else '0' for c in ax))
    env.check('order', arf.meta['ORDER'] == order)
    env.check('unknown channel', env.raises(ValueError, lambda: ar.mkarf(
        u.Quantity(env.arr(x), u.Angstrom if wave else u.keV), order, mirr_grat=mirr,
        trans_filters_qe=filt, conf=conf, channels=['3'])))


@harness(timeout=60)
def mirrors(env):
    """area of mirrors and gratings: of the order asked for, with its unit, never negative,
    whatever the order of the rows."""
    ar = env.imp('marxs.missions.arcus.arfrmf')
    import astropy.units as u
    from astropy.table import QTable
    w = [env.num(10), env.num(20), env.num(40)]
    perm = env.choice('rows', [[0, 1, 2], [2, 1, 0], [1, 0, 2]])
    v = {o: [env.real('a%s_%d' % (o, i), -1, 9) for i in range(3)] for o in ('-5', '0')}

    class Nodes:
        def __init__(self, x, y, kind='linear', fill_value=None, bounds_error=None):
            self.x = list(getattr(x, 'value', x))
            self.y = list(getattr(y, 'value', y))
            env.check('increasing', all(self.x[i] < self.x[i + 1] for i in range(2)))
            env.check('outside of the table', fill_value == 0 and bounds_error is False)

        def __call__(self, q):
            q = q.to(u.Angstrom).value if isinstance(q, u.Quantity) else q
            out = []
            for t in q:
                k = [i for i in range(3) if bool(abs(t - self.x[i]) < env.num(1) / 100)]
                out.append(self.y[k[0]] if k else env.num(-7))
            return env.arr(out)
    env.patch(ar, 'interp1d', Nodes)
    if env.symbolic:
        class Tab(dict):
            """table that sorts by a column"""
            def __init__(self, d, copy=True):
                super().__init__({k: list(x) for k, x in d.items()})
                self.units = d.units

            colnames = property(lambda self: list(self))

            def sort(self, key):
                o = sorted(range(3), key=lambda i: Key(self._get(key)[i]))
                for k in list(self):
                    dict.__setitem__(self, k, [self._get(k)[i] for i in o])

            def _get(self, k):
                return dict.__getitem__(self, k)

            def __getitem__(self, k):
                return u.Quantity(env.arr(self._get(k)), self.units[k])

        class Src(dict):
            units = {'wave': u.Angstrom, '-5': u.cm**2, '0': u.mm**2}
        env.patch(ar, 'QTable', Tab)
        t = Src()
    else:
        t = QTable()
    un = {'wave': u.Angstrom, '-5': u.cm**2, '0': u.mm**2}
    for k, x in (('wave', w), ('-5', v['-5']), ('0', v['0'])):
        c = [x[i] for i in perm]
        t[k] = c if env.symbolic else u.Quantity(c, un[k])
    m = ar.MirrGrat(t)
    if not env.symbolic:
        env.check('table is not changed', list(t['wave'].value) == [float(w[i]) for i in perm])
    order = env.choice('order', [-5, 0])
    wave = env.choice('wave', [True, False])
    q = u.Quantity(env.arr([w[1], w[0]]), u.Angstrom) if wave else \
        u.Quantity(env.arr([hc(env) / w[1], hc(env) / w[0]]), u.keV)
    got = m(q, order)
    env.check('unit', got.unit == un[str(order)])
    for g, i in zip(got.value, (1, 0)):
        x = v[str(order)][i]
        env.check_eq('area', g, x if x > 0 else 0)


@harness(timeout=80)
def zeroth_response(env):
    """response of the zeroth order: for each row a Gaussian in the middle of the row with the
    width interpolated from the table, integrated over every channel."""
    ar = env.imp('marxs.missions.arcus.arfrmf')
    og = env.imp('marxs.reduction.ogip')
    import astropy.units as u
    from astropy.table import QTable
    import sherpa.models as sm
    n = 3
    made = []
    k0 = env.choice('row', [0, 1, 2])
    vals = [[env.real('p%d' % i, 0, 1) if k == k0 else env.num(1 + k + 3 * i) / 10
             for i in range(n)] for k in range(n)]

    class Gauss:
        def __init__(self, name):
            made.append(self)
            self.k = len(made) - 1

        def __call__(self, lo, hi):
            self.lo, self.hi = lo, hi
            return env.arr([vals[self.k][i] for i in range(n)])
    env.patch(sm, 'NormGauss1D', Gauss)
    env.patch(og, '_check_col_and_type', lambda *a: None)
    slope, const = env.real('slope', 1, 50), env.real('const', 50, 99)
    ee = [env.num(1) / 10, env.num(9)]
    tab = QTable()
    tab['energy'] = u.Quantity(env.arr(ee), u.keV)
    tab['FWHM'] = u.Quantity(env.arr([const + slope * x for x in ee]), u.eV)
    E = [env.num(1) / 2, env.num(1), env.num(2), env.num(3)]
    down = env.choice('down', [False, True])
    thr = env.choice('threshold', [env.num(1) / 10, env.num(1) / 3])
    if env.symbolic:
        # columns of symbolic numbers do not turn into quantities on their own
        real = og.RMF.ebounds_from_edges

        def edges(e):
            t = real(e)
            for c in ('E_MIN', 'E_MAX'):
                t[c] = u.Quantity(env.arr(list(getattr(t[c], 'value', t[c]))), u.keV)
            return t
        env.patch(og.RMF, 'ebounds_from_edges', staticmethod(edges))
    r = ar.mkrmf0(u.Quantity(env.arr(E[::-1] if down else E), u.keV), ccdfwhm=tab, threshold=thr)
    env.check('rows', len(made) == n and len(r.matrix) == len(r.ebounds) == n)

    def val(x):
        return x.to(u.keV).value if isinstance(x, u.Quantity) else x
    for k in range(n):
        mid = (E[k] + E[k + 1]) / 2
        env.check_eq('middle', val(made[k].pos), mid)
        env.check_near('width', val(made[k].FWHM) * 1000, const + slope * mid, 1e-6)
        for i in range(n):
            env.check_eq('lower edge', val(u.Quantity(made[k].lo, u.keV)[i]), E[i])
            env.check_eq('upper edge', val(u.Quantity(made[k].hi, u.keV)[i]), E[i + 1])
        lo, hi, full = r.full_rmf(u.Quantity(env.arr([mid]), u.keV)[0])
        for i in range(n):
            v = vals[k][i]
            env.check_eq('response', full[i], v if v > thr else 0)
            env.check_eq('lower energy', u.Quantity(lo)[i].to(u.keV).value, E[i])
            env.check_eq('upper energy', u.Quantity(hi)[i].to(u.keV).value, E[i + 1])
    for t in (r.matrix, r.ebounds):
        env.check('keywords', t.meta['ORDER'] == 0 and t.meta['DETCHANS'] == n and
                  t.meta['CHANTYPE'] == 'PHA')


@harness(timeout=60)
def channels_apart(env):
    """each channel is analyzed with its own photons, without those cross-dispersed, and with
    its own zeroth order; energies and versions are checked."""
    ag = env.imp('marxs.missions.arcus.analyze_grid')
    from astropy.table import Table
    import astropy.units as u
    calls = []
    x = env.real('x', 0, 9)

    class Capture:
        def __init__(self, **kw):
            self.kw = kw

        def __call__(self, p, n_photons):
            k = len(calls)
            calls.append((self.kw, [int(i) for i in p['nr']], n_photons))
            return {'R': env.arr([100 * k + j for j in range(2)]),
                    'Aeff': u.Quantity(env.arr([k + j + x for j in range(2)]), u.cm**2)}
    env.patch(ag, 'CaptureResAeff_CCDgaps', Capture)
    env.patch(ag, 'zeropos', lambda c, ch, conf: (c, ch, conf))
    area = env.positive('area', hi=99)
    conf = object()
    s = env.choice('split', [0, 1, 500, 999])
    xou = [s, 1000 + s, 10000 + s, 11000 + s, s, 11000 + s]
    l1 = [0, 0, 0, 0, 1, 0]
    e = env.choice('energy', [1., 2.])
    t = Table({'nr': list(range(6)), 'xou': [float(v) for v in xou], 'order_L1': l1,
               'energy': [1.] * 5 + [e]},
              meta={'A_GEOM': area, 'EXPOSURE': 25, 'ORIGIN': 'a'})
    ref = env.choice('reference', [None, 'a', 'b'])
    ref = None if ref is None else {'ORIGIN': ref}
    orders = [-1, 0]
    if e != 1 or (ref and ref['ORIGIN'] == 'b'):
        env.check('refused', env.raises(AssertionError,
                                        lambda: ag.analyze_sim(t, orders, ref, conf)))
        return
    res, aeff = ag.analyze_sim(t, orders, ref, conf)
    env.check('each channel once', len(calls) == 4)
    for k, (kw, nr, n) in enumerate(calls):
        env.check('photons', nr == [[0], [1], [2], [3, 5]][k])
        env.check('number', n == 25)
        env.check('zeroth order', kw['zeropos'] == ('circ_phi', list(CHAN)[k], conf) and
                  kw['dispersion_coord'] == 'circ_phi')
        env.check('orders', list(kw['orders']) == orders and kw['order_col'] == 'order')
        env.check('chips', kw['aeff_filter_col'] == 'CCD')
        env.check_eq('area', kw['A_geom'].to(u.cm**2).value, area)
        for j in range(2):
            env.check_eq('resolving power', res[k, j], 100 * k + j)
            env.check_eq('effective area', aeff[k, j].to(u.cm**2).value, k + j + x)


@harness(timeout=80)
def many(env):
    """grids: one row for each file with energy and wavelength, per channel and order, for all
    channels, and for all dispersed orders; lists and arrays of orders."""
    ag = env.imp('marxs.missions.arcus.analyze_grid')
    import numpy
    import astropy.units as u
    orders = env.choice('orders', [[-2, 0, 1], [-3, -1]])
    kind = env.choice('kind', ['list', 'array'])
    E = [env.choice('e0', [0.5, 2.]), 1.5]
    area = [[[1. + i + 2 * k * k + 3 * j * j for j in range(len(orders))] for k in range(4)]
            for i in range(2)]
    x = env.real('r', 100, 900)
    R = [[[x + 10 * i + 20 * k + 30 * j * k for j in range(len(orders))] for k in range(4)]
         for i in range(2)]
    bad = env.choice('not measured', [None, (1, 2, 0)])
    val = [[[R[i][k][j] for j in range(len(orders))] for k in range(4)] for i in range(2)]
    if bad:
        i, k, j = bad
        val[i][k][j] = float('nan')
        area[i][k][j] = 0.
    metas = [{'ENERGY': E[0], 'A': 1}, {'ENERGY': E[1], 'A': 2}]
    reads = []

    class T:
        @staticmethod
        def read(name, *a, **k):
            reads.append(name)
            o = type('O', (), {})()
            i = 0 if 'wave1' in name else 1
            o.meta, o.nr = dict(metas[i]), i
            return o
    env.patch(ag, 'Table', T)
    env.patch(ag.glob, 'glob', lambda p: ['d/wave2.fits', 'd/wave1.fits'])
    refs = []

    def sim(obs, o, ref, conf):
        env.check('orders', list(o) == orders)
        refs.append(ref)
        return (env.arr(val[obs.nr]), u.Quantity(env.arr(area[obs.nr]), u.cm**2))
    env.patch(ag, 'analyze_sim', sim)

    # numbers are collected without a table in symbolic runs
    class Q:
        def __init__(self, cols, names):
            self.c = dict(zip(names, cols))

        def __getitem__(self, k):
            return self.c[k]
    if env.symbolic:
        env.patch(ag, 'QTable', Q)
        env.patch(ag, 'average_R_Aeff', lambda r, a, axis=None: average(env, r, a, axis))
    allow = env.choice('inconsistent', [False, True])
    kw = {'allow_inconsistent_meta': True} if allow else {}
    out = ag.aeffRfromraygrid('d', 'conf', orders=orders if kind == 'list' else
                              numpy.array(orders), **kw)
    env.check('reference', all((r is None) == allow for r in refs) and len(refs) == 2)
    env.check('header', out.meta['A'] == 1)
    env.check('orders in the header', list(ag.orders_from_meta(out.meta)) == orders)
    disp = [j for j, o in enumerate(orders) if o != 0]

    def avg(cells, i):
        s, a = 0, 0
        for k, j in cells:
            if (i, k, j) != bad:
                s = s + R[i][k][j] * area[i][k][j]
                a = a + area[i][k][j]
        return s / a, a
    for i in range(2):
        env.check_near('energy', out['energy'][i].to(u.keV).value, E[i], 1e-9)
        env.check_near('wavelength', out['wave'][i].to(u.Angstrom).value * E[i], hc(env), 1e-6)
        for j in range(len(orders)):
            for k in range(4):
                env.check_eq('area', out['Aeff'][i, k, j].to(u.cm**2).value, area[i][k][j])
                if (i, k, j) == bad:
                    env.check('not measured', env.isnan(out['R'][i, k, j]))
                else:
                    env.check_eq('resolving power', out['R'][i, k, j], R[i][k][j])
            r, a = avg([(k, j) for k in range(4)], i)
            env.check_eq('area of all channels', out['Aeff4'][i, j].to(u.cm**2).value, a)
            env.check_eq('resolving power of all channels', out['R4'][i, j] * a, r * a)
        r, a = avg([(k, j) for k in range(4) for j in disp], i)
        env.check_eq('area of all orders', out['Aeff_disp'][i].to(u.cm**2).value, a)
        env.check_eq('resolving power of all orders', out['R_disp'][i] * a, r * a)


def average(env, r, a, axis):
    """average_R_Aeff for symbolic numbers (this function itself is decided with C23)"""
    import numpy as np
    import astropy.units as u
    r = getattr(r, 'v', r)
    w = a.to(u.cm**2).value
    rr, aa = np.moveaxis(np.asarray(r, dtype=object), axis, -1), np.moveaxis(w, axis, -1)
    s = np.empty(rr.shape[:-1], dtype=object)
    for i in np.ndindex(*s.shape):
        num, den = 0, 0
        for x, y in zip(rr[i], aa[i]):
            if not env.isnan(x):
                num, den = num + x * y, den + y
        s[i] = num / den

    class Masked:
        fill_value = 0
        v = s

        def filled(self, x=None):
            return s

        def __getitem__(self, k):
            return s[k]
    tot = np.empty(s.shape, dtype=object)
    for i in np.ndindex(*s.shape):
        tot[i] = sum(aa[i])
    return Masked(), u.Quantity(env.arr(tot), u.cm**2)


@harness(timeout=40)
def numbers(env):
    """numbers from tables with one row keep value and unit; longer tables are refused."""
    lc = env.imp('marxs.missions.arcus.load_csv')
    import os
    import astropy.units as u
    from astropy.table import Table
    v = [env.real('v%d' % i, -9, 9) for i in range(2)]
    n = env.choice('rows', [1, 2, 0])
    unit = env.choice('unit', [None, u.mm, u.deg])
    names = []

    class T:
        @staticmethod
        def read(name, *a, **k):
            names.append(name)
            t = Table()
            t['other'] = env.arr([5, 6][:n])
            t['val'] = env.arr(v[:n])
            t['val'].unit = unit
            return t
    env.patch(lc, 'Table', T)
    env.patch(lc, 'config', {'data': {'caldb_inputdata': 'root'}})
    path = os.path.join('root', 'dir', 'file.csv')
    t = lc.load_table('dir', 'file')
    env.check('name', names == [path])
    env.check('rows', len(t) == n)
    if n != 1:
        env.check('refused', env.raises(lc.DataFileFormatException,
                                        lambda: lc.load_number('dir', 'file', 'val')))
        return
    x = lc.load_number('dir', 'file', 'val')
    env.check('name of the number', names == [path] * 2)
    if unit is None:
        env.check_eq('number', x, v[0])
    else:
        env.check_eq('number', x.to(unit).value, v[0])
        env.check('unit', x.unit == unit)


@harness(timeout=80)
def circle(env):
    """Lynx and AXIS: rays to any place on the Rowland circle of the settings given are detected
    there by the circular detector; the detectors are in order."""
    name = env.choice('mission', ['lynx', 'AXIS'])
    mod = env.imp('marxs.missions.%s.%s' % (name, name))
    rl = env.imp('marxs.design.rowland')
    import numpy as np
    R, r, x0, y0 = env.choice('torus', [(4000, 4010, 20, 5), (5000, 4900, -30, 0)])
    tor = rl.RowlandTorus(R, r, position=[x0, y0, 0])
    env.patch(mod, 'RowlandDetArray', lambda c: ('array', c))
    conf = dict(mod.conf)
    conf['rowland'] = tor
    cls = getattr(mod, 'Perfect' + {'lynx': 'Lynx', 'AXIS': 'AXIS'}[name])
    els = cls.add_detectors(None, conf)
    env.check('array of detectors', els[0] == ('array', conf))
    det = [e for e in els[1:] if 'detcirc_phi' in getattr(e, 'loc_coos_name', [])]
    env.check('one circular detector', len(det) == 1)
    kinds = [type(e).__name__ for e in els]
    i = kinds.index('CircularDetector')
    env.check('rays are moved back before the next detector', kinds[i - 1] == 'Propagator')
    # circle in the plane of dispersion
    s, c = env.choice('t', [(env.num(0), env.num(1)), (env.num(20) / 101, env.num(99) / 101),
                            (env.num(-40) / 401, env.num(399) / 401)])
    z = env.real('z', -15, 15)
    place = [x0 + R - r * c, y0 + r * s, z]
    d = [env.num(-12) / 13, env.num(3) / 13, env.num(4) / 13]
    p = env.photons(1, pos=env.arr([[place[k] - 130 * d[k] for k in range(3)] + [1]]),
                    dir=env.arr([d + [0]]))
    p = det[0](p)
    for k in range(3):
        env.check_near('detected on the circle', p['pos'][0, k], place[k], 1e-6)
    env.check_near('angle', abs(env.sin(p['detcirc_phi'][0])), abs(s), 1e-6)
    env.check_lt('close to the focus', 0, env.cos(p['detcirc_phi'][0]))
    env.check_near('height', abs(p['detcirc_y'][0]), abs(z), 1e-6)


@harness(timeout=60)
def complete(env):
    """Lynx and AXIS: mirrors, gratings, filters and detectors in this order with the settings
    given; the gratings of this instrument are chirped if settings ask for it."""
    name = env.choice('mission', ['lynx', 'AXIS'])
    mod = env.imp('marxs.missions.%s.%s' % (name, name))

    class Part(env.imp('marxs.base').MarxsElement):
        def __init__(self, n):
            super().__init__(name=n)

        def __call__(self, p):
            return p
    conf = {'gas_kwargs': {'elem_args': {'d': 7}}, 'rowland': None}
    chirp = env.choice('chirp', [[], ['chirp_energy'], ['chirp_energy', 'chirp_order']])
    e, o = env.real('e', 1, 9), env.choice('o', [-5, 3])
    conf.update({k: {'chirp_energy': e, 'chirp_order': o}[k] for k in chirp})
    asked = []

    def add(n, k):
        parts = [Part(n + str(i)) for i in range(k)]

        def f(self, c):
            asked.append(c)
            return list(parts)
        return f
    base = getattr(mod, 'Perfect' + {'lynx': 'Lynx', 'AXIS': 'AXIS'}[name])
    calls = []
    if hasattr(mod, 'circular_detector'):
        env.patch(mod, 'circular_detector', lambda c: asked.append(c) or 'circle')
    env.patch(mod, 'NumericalChirpFinder', lambda det, **kw: ('finder', kw))
    env.patch(mod, 'chirp_gratings', lambda g, f, d, **kw: calls.append((g, f, d)))
    env.patch(base, 'elements_of_class', lambda self, c, **kw: (self, c, kw))
    for n, k in (('add_mirror', 2), ('add_gas', 2), ('add_detectors', 3)):
        env.patch(base, n, add(n, k))
    if name == 'AXIS':
        env.patch(mod, 'FiltersAndQE', lambda: filt)
        filt = Part('filter')
    else:
        filt = mod.filterqe
    kw = {}
    gratings = True
    if name == 'AXIS':
        gratings = env.choice('gratings', [None, True, False])
        kw = {} if gratings is None else {'gratings': gratings}
        gratings = gratings is not False
    inst = base(conf=conf, **kw)
    env.check('settings', all(c is conf for c in asked) and len(asked) >= 2 + gratings)
    got = [x.name if isinstance(x, Part) and x is not filt else x for x in inst.elements]
    want = ['add_mirror0', 'add_mirror1'] + ['add_gas0', 'add_gas1'] * gratings + \
        [filt, 'add_detectors0', 'add_detectors1', 'add_detectors2', mod.tagversion]
    env.check('order', len(got) == len(want) and all(x is y or x == y for x, y in zip(got, want)))
    env.check('positions are recorded', inst.KeepPos in inst.postprocess_steps)
    env.check('chirped', len(calls) == (len(chirp) == 2))
    for g, f, d in calls:
        env.check('gratings of this instrument', g[0] is inst and
                  g[1] is mod.NonParallelCATGrating and g[2] == {'subclass_ok': False})
        env.check('order and period', f[1]['order'] == o and f[1]['d'] == 7 and d == 7)
        env.check_eq('energy', f[1]['energy'], e)


@harness(timeout=60)
def gratings(env):
    """petals of gratings sit on the optical axis of their channel with the numbers of the
    channel, the support bars come last; a regular grid is on the torus of the channel, faces its
    focus, covers the petal on its side and is blazed towards the detectors of its half."""
    import types
    a = env.imp('marxs.missions.arcus.arcus')
    r = env.imp('marxs.missions.arcus.ralfgrating')
    El.log = []
    kind = env.choice('kind', ['petals', 'grid'])
    chans = env.choice('channels', [['1', '2', '1m', '2m'], ['2m', '1']])
    num = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}
    ax = {c: [env.real('%s %d' % (c, i), -9, 9) for i in range(3)] + [env.num(1)] for c in num}
    conf = {'pos_opt_ax': {c: env.arr(v) for c, v in ax.items()}}
    rec = []

    class G(El):
        def __init__(self, *args, **kw):
            kw['elem_args'] = dict(kw.get('elem_args', {}))
            rec.append((self, kw))
    if kind == 'petals':
        env.patch(a, 'CATfromMechanical', G)
        seq = a.CATGratings(conf, chans)
        last = a.catsupportbars
    else:
        env.patch(r, 'RectangularGrid', G)
        w = [env.real('w%d' % i, 1, 40) for i in range(2)]
        mid = env.real('mid', 50, 900)
        env.patch(r, 'zoom_to_cover_all_spos', lambda c, az, rad: env.arr([1] + w))
        env.patch(r, 'rmid_spo', lambda c: mid)
        tor = {c: object() for c in num}
        conf.update({'rowland_' + c: t for c, t in tor.items()})
        R, r0 = env.real('R', 5000, 7000), env.real('r', 5000, 7000)
        conf['rowland_central'] = types.SimpleNamespace(R=R, r=r0)
        sel = object()
        conf['blazeang'] = 1.8
        conf['gratinggrid'] = {'d_element': [32., 33.], 'elem_class': 'CAT',
                               'elem_args': {'order_selector': sel}}
        seq = r.RegularGrid(conf, chans)
        last = r.catsupportbars
    env.check('order', [x is y for x, y in zip(seq.elements, [g for g, _ in rec] + [last])]
              == [True] * (len(chans) + 1) and len(seq.elements) == len(chans) + 1)
    for c, (_, kw) in zip(chans, rec):
        env.check(c + ': numbers', kw['id_num_offset'] == num[c])
        if kind == 'petals':
            env.check(c + ': settings', kw['channel'] == c and kw['conf'] is conf)
            for i in range(4):
                env.check_vec('%s: place %d' % (c, i), kw['pos4d'][i],
                              [int(i == j) for j in range(3)] + [ax[c][i]])
            continue
        env.check(c + ': settings', kw['rowland'] is tor[c] and kw['elem_class'] == 'CAT' and
                  kw['elem_args']['order_selector'] is sel and kw['d_element'] == [32., 33.])
        env.check_vec(c + ': faces', kw['normal_spec'], ax[c])
        env.check_eq(c + ': first guess', kw['guess_distance'],
                     (R + r0) * (-1 if 'm' in c else 1))
        env.check_vec(c + ': width', kw['y_range'], [-w[0], w[0]])
        s = 1 if '1' in c else -1
        env.check_vec(c + ': height', kw['z_range'], [s * mid - w[1], s * mid + w[1]])
        b = env.PI / 100 * (1 if 'm' in c else -1)
        cb, sb = env.np.cos(b), env.np.sin(b)
        for i, row in enumerate([[cb, -sb, 0], [sb, cb, 0], [0, 0, 1]]):
            for j in range(3):
                env.check_near('%s: blaze %d %d' % (c, i, j), kw['elem_args']['orientation'][i][j],
                               row[j], 1e-9)
