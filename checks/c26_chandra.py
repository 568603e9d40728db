"""Chandra: dither, detector coordinates and files."""
from symx.worker import registry
from .c13_pointing import angles, axes, basis, deg, in_telescope, photons, reference, rotate, sky
from .elements import snapshot

HARNESSES, harness = registry()
NEEDS = ['marxs.missions.chandra.dither', 'marxs.missions.chandra.det_acis',
         'marxs.missions.chandra.fitsheaders', 'marxs.missions.chandra.chandra_global',
         'marxs.missions.chandra.data', 'marxs.missions.chandra.hess']
ASSUMPTIONS = [
    'astropy.coordinates is replaced by the textbook formulas (see C13). Amplitudes, phases, '
    'times, roll angles, places on the sky and on the chips are symbolic; one photon per run '
    '(two where a second one could matter); periods and the layout of the chips are constants.',
    'Writing of FITS files is replaced by a stand-in that keeps the table.',
]


def dmod(env):
    return env.imp('marxs.missions.chandra.dither')


def quant(env, x, unit):
    import astropy.units as u
    return u.Quantity(env.arr(list(x)), unit)


def pointing(env, lon, lat, roll, amp=None, period=None, phase=None, **kw):
    import astropy.units as u
    d = dmod(env)
    S = sky(env, env.imp('marxs.source.pointing'))
    if amp is not None:
        kw['DitherAmp'] = quant(env, amp, u.rad)
    if period is not None:
        kw['DitherPeriod'] = quant(env, period, u.s)
    if phase is not None:
        kw['DitherPhase'] = quant(env, phase, u.rad)
    return d.LissajousDither(coords=S(lon * u.rad, lat * u.rad), roll=roll * u.rad, **kw)


def value(x):
    import astropy.units as u
    return x.to(u.rad).value if isinstance(x, u.Quantity) else x


@harness(timeout=60)
def offsets(env):
    """dither: a sine of time in every axis, with its own amplitude, period and phase; the first
    amplitude is on the sky."""
    lon, lat = angles(env, 'point')
    amp = [env.real('a%d' % i, -1, 1) for i in range(3)]
    ph = [env.angle('p%d' % i, -3, 3) for i in range(3)]
    t = [env.angle('t%d' % i, 0, 10) for i in range(2)]
    per = [1, 2, env.num(1) / 2]
    p = pointing(env, lon, lat, env.num(0), amp, per, ph)
    out = value(p.dither(env.arr(t)))
    env.check('shape', out.shape == (2, 3))
    for i in range(2):
        for k in range(3):
            want = amp[k] * env.sin(2 * env.PI * t[i] / per[k] + ph[k])
            if k == 0:
                env.check_eq('offset in right ascension %d' % i, out[i, k] * env.cos(lat), want)
            else:
                env.check_eq('offset %d %d' % (i, k), out[i, k], want)


def vec(env, lon, lat):
    return basis(env, lon, lat)[0]



def _path(name, free):
    def f(env):
        import astropy.units as u
        lon, lat = angles(env, 'point') if 'point' in free else (env.num(0), env.num(0))
        if 'lat' in free:
            lat = env.angle('lat', -1, 1)
        roll = env.angle('roll', -env.PI, env.PI) if 'roll' in free else \
            env.choice(
                'roll', [env.num(0)] if 'upright' in free else
                [env.num(0), env.PI / 2, -env.PI / 2])
        off = [[env.num(0)] * 3 for _ in range(2)]
        for i in range(2):
            for k in range(3):
                if '%d%d' % (i, k) in free:
                    off[i][k] = env.angle('d%d%d' % (i, k), -1, 1)
        if '12' in free:
            env.assume((off[1][2] - off[0][2])**2 >= env.num(1) / 100)
        p = pointing(env, lon, lat, roll)
        p.dither = lambda t: u.Quantity(env.arr(off), u.rad)
        out = p.pointing(env.arr([0, 1]))
        env.check('shape', out.shape == (2, 3))
        x = vec(env, lon, lat)
        for i in range(2):
            e = vec(env, lon + off[i][0], lat + off[i][1])
            r = roll + off[i][2]
            want = rotate(env, e, x, env.cos(r), env.sin(r))
            env.check_vec('direction %d' % i, vec(env, out[i, 0], out[i, 1]), want)
            env.check_eq('roll %d' % i, out[i, 2], r)
            env.check_le('declination from -90 deg', -env.PI / 2, out[i, 1])
            env.check_le('declination to 90 deg', out[i, 1], env.PI / 2)
    f.__name__ = 'path_' + name
    f.__doc__ = ('pointing direction: the offsets are added to the nominal direction, which is '
                 'then turned about it by the roll angle; free: %s' % (free,))
    return f


harness(timeout=60)(_path('roll', ('roll', '00')))
harness(timeout=60)(_path('both', ('00', '01', '10')))
harness(timeout=60)(_path('point', ('point', '01')))
harness(timeout=60)(_path('change', ('01', '02', '12')))



def _attitude(name, ref, free):
    def f(env):
        p = pointing(env, env.num(1), env.num(0), env.num(0), **reference(env, ref)[1])
        R = reference(env, ref)[0]
        pt = []
        for i in range(2):
            k = str(i)
            lon, lat = angles(env, 'p' + k) if 'place' + k in free else (env.num(i), env.num(0))
            roll = env.angle('r' + k, -env.PI, env.PI) if 'roll' + k in free else \
                [env.num(0), env.PI / 2][i]
            pt.append((lon, lat, roll))
        p.pointing = lambda t: env.arr([pt[int(x) - 1] for x in t])
        star = [angles(env, 'star') if 'star' in free else (env.num(2), env.num(1) / 2)] + \
            [(env.num(1), env.num(-1))]
        pa = [env.angle('pa', 0, 7), env.num(1)]
        out = p(photons(env, star, pa))
        for i in range(2):
            ax = axes(env, pt[i][:2], pt[i][2])
            o, n, e = basis(env, *star[i])
            env.check_vec('direction %d' % i, out['dir'].data[i][:3],
                          -in_telescope(env, ax, R, o))
            env.check_eq('direction is a direction %d' % i, out['dir'].data[i][3], 0)
            q = out['polarization'].data[i]
            env.check_vec('polarization %d' % i, q[:3], in_telescope(
                env, ax, R, env.cos(pa[i]) * n + env.sin(pa[i]) * e))
            env.check_eq('polarization is a direction %d' % i, q[3], 0)
    f.__name__ = 'attitude_' + name
    f.__doc__ = ('each photon arrives as with a fixed pointing in the direction and with the roll '
                 'at its time; free: %s, reference transform %s' % (free, ref))
    return f


harness(timeout=60)(_attitude('place', None, ('place0', 'roll1')))
harness(timeout=60)(_attitude('star', None, ('star', 'roll0')))
harness(timeout=60)(_attitude('reference', 5, ('roll0', 'roll1')))


def _still(free):
  def f(env):
    import astropy.units as u
    d = dmod(env)
    S = sky(env, env.imp('marxs.source.pointing'))
    lon, lat, roll = env.num(0), env.num(0), env.num(0)
    if free == 'lon':
        lon = env.angle('lon', 0, 6)
    if free == 'lat':
        lat = env.angle('lat', -1, 1)
    if free == 'roll':
        roll = env.angle('roll', -env.PI, env.PI)
    point = lon, lat
    ref = env.choice('ref', [None, 5])
    R, kw = reference(env, ref)
    unit = env.choice('unit', ['rad', 'deg'])
    p = d.LissajousDither(coords=S(point[0] * u.rad, point[1] * u.rad), roll=roll * u.rad,
                          DitherAmp=quant(env, [0, 0, 0], unit), **kw)
    star = (env.num(2), env.num(-1) / 2)
    pa = env.angle('pa', 0, 7)
    ph = photons(env, [star], [pa])
    ph['time'] = env.arr([env.real('t', 0, 1000)])
    out = p(ph)
    ax = axes(env, point, roll)
    o, n, e = basis(env, *star)
    env.check_vec('direction', out['dir'].data[0][:3], -in_telescope(env, ax, R, o))
    env.check_vec('polarization', out['polarization'].data[0][:3], in_telescope(
        env, ax, R, env.cos(pa) * n + env.sin(pa) * e))
    for k, v in (('RA', point[0]), ('DEC', point[1]), ('ROLL', roll)):
        for t in ('PNT', 'NOM'):
            env.check_near('header %s_%s' % (k, t), out.meta['%s_%s' % (k, t)][0] * env.PI,
                           v * 180, env.num(1) / 10 ** 6)
  f.__name__ = 'still_' + free
  f.__doc__ = ('with zero amplitude the dither is a fixed pointing, at all times, also in the '
               'headers; free: ' + free)
  return f


for _f in ('lon', 'lat', 'roll'):
    harness(timeout=60)(_still(_f))


# ------------------------------------------------------------------- detector
ACIS = ['I0', 'I1', 'I2', 'I3', 'S0', 'S1', 'S2', 'S3', 'S4', 'S5']


def amod(env):
    return env.imp('marxs.missions.chandra.det_acis')


def acis(env, chips, aim=None, off=(0, 0)):
    a = amod(env)
    kw = {}
    if off != (0, 0):
        kw = {'DetOffsetX': off[0], 'DetOffsetY': off[1]}
    return a.ACIS(chips=chips, aimpoint=env.arr(aim if aim is not None else
                                                [env.num(-782) / 1000, 0, env.num(-233592) / 1000]),
                  **kw)


def corners(env):
    """corners of the chips (lower left, lower right, upper left), from the text of the table"""
    import re
    d = env.imp('marxs.missions.chandra.data')
    out = {}
    for line in d.PIX_CORNER_LSI_PAR.splitlines():
        m = re.match(r'^ACIS-(..)-(..),s,h,"\(([^)]*)\)"', line)
        if m:
            out[m.group(1), m.group(2)] = [env.num(float(v)) for v in m.group(3).split()]
    return out


@harness(timeout=60)
def chips(env):
    """each chip is where its corners are, moved by the origin of the instrument, the aimpoint and
    against the offset of the detector; only the chips asked for are there, under their number."""
    aim = [env.real('aim%d' % i, -300, 300) for i in range(3)]
    off = (env.real('offx', -10, 10), env.real('offy', -10, 10))
    which = env.choice('chips', [[0, 1, 2, 3], [7], [9, 4, 6]])
    a = acis(env, which, aim, off)
    cs = corners(env)
    env.check('number of chips', len(a.elements) == len(which))
    move = [aim[0] + env.num(684) / 1000 - off[0], aim[1] + env.num(3) / 4,
            aim[2] + env.num(236552) / 1000 - off[1]]
    for e, k in zip(a.elements, which):
        n = ACIS[k]
        env.check('number %d' % k, e.id_num == k)
        env.check('name %d' % k, e.chip_name == 'ACIS-' + n)
        env.check('pixels %d' % k, list(e.npix) == [1024, 1024])
        for c, (y, z) in {'LL': (-1, -1), 'LR': (1, -1), 'UL': (-1, 1)}.items():
            got = env.matmul(e.pos4d, env.arr([0, y, z, 1]))
            for i in range(3):
                env.check_near('corner %s %s[%d]' % (n, c, i), got[i], cs[n, c][i] + move[i],
                               env.num(1) / 200)   # as precise as the table


def tdet(chip, x, y):
    """tiled detector coordinates of a place in chip coordinates (memo on coordinates, table)"""
    origin = [(3061, 5131), (5131, 4107), (3061, 4085), (5131, 3061), (791, 1702), (1833, 1702),
              (2875, 1702), (3917, 1702), (4959, 1702), (6001, 1702)][chip]
    x, y = x - 0.5, y - 0.5
    if chip in (0, 2):        # by 90 deg
        x, y = y, -x
    elif chip in (1, 3):
        x, y = -y, x
    return x + origin[0] + 0.5, y + origin[1] + 0.5


def _chip(chip, place):
    def f(env):
        a = acis(env, [k for k in (5, chip) if k != chip] + [chip])
        e = a.elements[1]
        y, z = [env.real(k, -env.num(1023) / 1024, env.num(1023) / 1024) for k in 'yz']
        if place == 'edge':
            y = env.choice('side', [env.num(-1), env.num(1)]) * env.num(1023) / 1024
        on = env.matmul(e.pos4d, env.arr([0, y, z, 1]))
        v = [env.real('vy', -0.1, 0.1) if place == 'oblique' else 0, 0]
        d = [-1, v[0], v[1]]
        n = env.norm2(d)
        if place == 'oblique':
            n = env.sqrt(n)
        s = 100
        ph = env.photons(2, pos=[[on[i] - s * d[i] for i in range(3)] + [1],
                                 [100, 300, 500, 1]],
                         dir=[[x / n for x in d] + [0], [-1, 0, 0, 0]], energy=[1, 2],
                         pol=[[0, 0, 1, 0]] * 2, prob=[env.real('p', 0, 1), 1])
        roll = env.angle('roll', -env.PI, env.PI)
        ph.meta['ROLL_PNT'] = (deg(env, roll), '')
        before = snapshot(ph)
        out = a(ph)
        tol = env.num(1) / 10     # of a pixel: the table with the corners is that precise
        env.check_eq('chip number', out['CCD_ID'].data[0], chip)
        env.check_eq('no chip', out['CCD_ID'].data[1], -1)
        cx, cy = out['chipx'].data[0], out['chipy'].data[0]
        # pixels are counted from 1 to 1024; the centre of pixel 1 is at 1
        env.check_near('chipx', cx, env.num(1025) / 2 + y * 512, 1)
        env.check_near('chipy', cy, env.num(1025) / 2 + z * 512, 1)
        w = e.geometry['v_y']
        env.check_near('pixel size', (cx - env.num(1025) / 2) * env.num(24) / 1000,
                       y * env.sqrt(env.norm2(w[:3])), env.num(1) / 10 ** 6)
        tx, ty = tdet(chip, cx, cy)
        env.check_near('tdetx', out['tdetx'].data[0], tx, env.num(1) / 10 ** 6)
        env.check_near('tdety', out['tdety'].data[0], ty, env.num(1) / 10 ** 6)
        for c in ('chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y'):
            env.check(c + ' of the missing ray', env.isnan(out[c].data[1]))
        # directions from the mirror, in units of pixels
        focal = env.num(10061.65)
        pix = env.num(0.492) / 3600 / 180 * env.PI
        u, v = on[1] / (on[0] - focal), on[2] / (on[0] - focal)
        env.check_near('detx', out['detx'].data[0], env.num(4096.5) - u / pix, 1)
        env.check_near('dety', out['dety'].data[0], env.num(4096.5) + v / pix, 1)
        dx, dy = out['detx'].data[0] - env.num(4096.5), out['dety'].data[0] - env.num(4096.5)
        c, s = env.cos(roll), env.sin(roll)
        env.check_near('x', out['x'].data[0], env.num(4096.5) + c * dx + s * dy, env.num(1) / 1000)
        env.check_near('y', out['y'].data[0], env.num(4096.5) - s * dx + c * dy, env.num(1) / 1000)
        for i in range(3):
            env.check_near('place %d' % i, out['pos'].data[0][i], on[i], env.num(1) / 10 ** 6)
        for k in ('energy', 'probability', 'dir', 'polarization'):
            for i in range(2):
                env.check_vec(k + ' unchanged %d' % i, out[k].data[i], before[k][i])
    f.__name__ = 'chip_%s_%s' % (ACIS[chip], place)
    f.__doc__ = 'ray to a place on chip %s (%s)' % (ACIS[chip], place)
    return f


for _k, _p in ((0, 'straight'), (1, 'edge'), (2, 'oblique'), (3, 'straight'), (7, 'straight'),
               (9, 'straight'), (4, 'edge')):
    harness(timeout=60)(_chip(_k, _p))


# ----------------------------------------------------------------------- files
class Written:
    """Stand-in for writing tables to files."""

    def __init__(self, env):
        from astropy.table import Table
        self.files = []

        def write(table, name, **kw):
            self.files.append((name, kw, table.copy(), dict(table.meta)))
        env.patch(Table, 'write', write)


def val(x):
    return x[0] if isinstance(x, tuple) else x


def _sky(name, free):
    def f(env):
        import astropy.units as u
        cg = env.imp('marxs.missions.chandra.chandra_global')
        point = angles(env, 'point') if 'point' in free else (env.num(0), env.num(0))
        roll = env.angle('roll', -env.PI, env.PI) if 'roll' in free else env.num(0)
        S = sky(env, env.imp('marxs.source.pointing'))
        fixed = env.imp('marxs.source.pointing').FixedPointing(
            coords=S(point[0] * u.rad, point[1] * u.rad), roll=roll * u.rad)
        a = acis(env, [0, 3])
        chip = env.choice('chip', [0, 1])
        place = [env.real(k, -env.num(1023) / 1024, env.num(1023) / 1024) for k in 'yz']
        on = env.matmul(a.elements[chip].pos4d, env.arr([0, place[0], place[1], 1]))
        ph = fixed(photons(env, [(env.num(2), env.num(-1) / 2)], [env.num(0)]))
        ph['pos'] = env.arr([[100, on[1], on[2], 1]])
        ph['dir'] = env.arr([[-1, 0, 0, 0]])
        # towards the sky, through the centre of the mirror
        up = [env.num(10061.65) - on[0], -on[1], -on[2]]
        ax = axes(env, point, roll)
        o = env.arr([env.dot([v[i] for v in ax], up) for i in range(3)])
        ph.meta['EXPOSURE'] = (env.num(1000) if not env.symbolic else 1000, '')
        chandra = cg.Chandra(elements=[a])
        out = chandra(ph)
        files = Written(env)
        chandra.write_evt(out, 'none.fits')
        _, kw, t, m = files.files[0]
        env.check('format', kw.get('format') == 'fits')
        names = [c.lower() for c in t.colnames]
        ix, iy = names.index('x') + 1, names.index('y') + 1
        env.check('types', m['TCTYP%d' % ix] == 'RA---TAN' and m['TCTYP%d' % iy] == 'DEC--TAN')
        X = env.num(val(m['TCDLT%d' % ix])) * (t['x'].data[0] - env.num(val(m['TCRPX%d' % ix])))
        Y = env.num(val(m['TCDLT%d' % iy])) * (t['y'].data[0] - env.num(val(m['TCRPX%d' % iy])))
        env.check_near('reference right ascension', env.num(val(m['TCRVL%d' % ix])) * env.PI,
                       deg(env, point[0]) * env.PI, env.num(1) / 10 ** 6)
        env.check_near('reference declination', env.num(val(m['TCRVL%d' % iy])) * env.PI,
                       deg(env, point[1]) * env.PI, env.num(1) / 10 ** 6)
        x, n, e = basis(env, *point)
        c = env.dot(o, x)
        env.check_near('place of the source (right ascension)', X * env.PI * c, 180 * env.dot(o, e), 1)
        env.check_near('place of the source (declination)', Y * env.PI * c, 180 * env.dot(o, n), 1)
        env.check('mission', val(m['MISSION']) == 'AXAF' and val(m['TELESCOP']) == 'CHANDRA')
        env.check('instrument', val(m['INSTRUME']) == 'ACIS' and val(m['DETNAM']) == 'ACIS-03')
        for k, v in (('X', -782), ('Y', 0), ('Z', -233592)):
            env.check_near('SIM_' + k, env.num(val(m['SIM_' + k])) * 1000, v, env.num(1) / 10 ** 6)
        env.check('source position is not taken for the measured one',
                  'ra' not in names and 'dec' not in names and 'marxs_ra' in names)
        for k, c in enumerate(names):
            lim = {'ccd_id': (0, 9), 'chipx': (2, 1023), 'chipy': (2, 1023), 'x': (0.5, 8192.5),
                   'y': (0.5, 8192.5), 'detx': (0.5, 8192.5), 'dety': (0.5, 8192.5)}.get(c)
            if lim:
                env.check('limits of ' + c, m.get('TLMIN%d' % (k + 1)) == lim[0] and
                          m.get('TLMAX%d' % (k + 1)) == lim[1])
    f.__name__ = 'sky_' + name
    f.__doc__ = ('the coordinate system in the header of the event file gives back the place of '
                 'the source, and the header tells instrument and place; free: %s' % (free,))
    return f


harness(timeout=80)(_sky('roll', ('roll',)))
harness(timeout=80)(_sky('point', ('point',)))


@harness(timeout=80)
def aspect(env):
    """aspect solution: the pointing directions in degrees for the whole observation, on the clock
    of the spacecraft; keywords are passed on, but not those about columns."""
    from astropy.table import Table
    lon, lat = angles(env, 'point')
    p = pointing(env, lon, lat, env.num(0))
    pt = [[env.angle('%s%d' % (k, i), 0, 6) if i < 2 and k != 'dec' else env.num(i) / 8
           for k in ('ra', 'dec', 'roll')] for i in range(4)]
    asked = []

    def where(t):
        asked.extend(t)
        return env.arr(pt[:len(t)])
    p.pointing = where
    if env.symbolic:     # quaternions are not used here
        env.patch(dmod(env), 'mat2quat', lambda m: env.np.array([1., 0., 0., 0.]))
    t = Table()
    t['time'] = [1.]
    date = env.choice('date', ['2005-02-03T04:05:06', '1999-12-31T23:59:59'])
    t.meta = {'EXPOSURE': (8, 'time'), 'OBSERVER': ('ME', 'x'), 'DATE-OBS': (date, 'now'),
              'TTYPE1': 'a', 'TFORM1': 'b', 'TCTYP7': 'c', 'TCRVL7': 1, 'MTYPE1': 'd',
              'RA_PNT': (3, 'deg')}
    files = Written(env)
    p.write_asol(t, 'asol.fits', timestep=2.)
    name, kw, a, m = files.files[0]
    env.check('file', name == 'asol.fits' and kw.get('format') == 'fits')
    env.check('times asked for', [float(x) for x in asked] == [0., 2., 4., 6.])
    for i in range(4):
        for k, c in enumerate(('ra', 'dec', 'roll')):
            env.check_near('%s %d' % (c, i), a[c].data[i] * env.PI, pt[i][k] * 180,
                           env.num(1) / 10 ** 6)
    # seconds since the start of 1998
    day = {'2': 7 * 365 + 2 + 33 + 4 / 24 + 5 / 1440, '1': 2 * 365}[date[0]]
    env.check('start', abs(val(m['TSTART']) - day * 86400) < 100)
    for i in range(4):
        env.check('time %d' % i, abs(float(a['time'].data[i]) - val(m['TSTART']) - 2 * i) < 1e-5)
    env.check('stop', abs(val(m['TSTOP']) - val(m['TSTART']) - 8) < 1e-5)
    for k in ('OBSERVER', 'RA_PNT', 'DATE-OBS', 'EXPOSURE'):
        env.check('keyword %s is passed on' % k, m.get(k) == t.meta[k])
    for k in ('TTYPE1', 'TFORM1', 'TCTYP7', 'TCRVL7', 'MTYPE1'):
        env.check('keyword %s is not passed on' % k, k not in m)
    env.check('content', m['CONTENT'] == 'ACASOL' and m['HDUCLAS2'] == 'ASPECT')
    env.check('units', a['time'].unit == 's' and a['ra_err'].unit == 'deg' and
              a['dy'].unit == 'mm')


@harness(timeout=60)
def columns(env):
    """columns are put in the order that is expected: pairs of coordinates together and in order,
    then positions, then all others by name; no column is lost and the values stay with it."""
    from astropy.table import Table
    f = env.imp('marxs.missions.chandra.fitsheaders')
    sets = {'all': ['y', 'detx', 'time', 'x', 'tdety', 'ra', 'chipx', 'dety', 'energy', 'chipy',
                    'dec', 'tdetx', 'probability'],
            'some': ['dec', 'energx', 'x', 'ra', 'detx', 'y', 'chipx', 'grat_y', 'grat_x',
                     'energy'],
            'single': ['chipx', 'tdety', 'time', 'dec', 'CCD_ID']}
    want = {'all': ['chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y', 'ra', 'dec',
                    'energy', 'probability', 'time'],
            'some': ['x', 'y', 'energx', 'energy', 'grat_x', 'grat_y', 'ra', 'dec', 'chipx',
                     'detx'],
            'single': ['CCD_ID', 'chipx', 'dec', 'tdety', 'time']}
    k = env.choice('set', ['all', 'some', 'single'])
    t = Table()
    vals = {c: env.real('v%d' % i, -9, 9) for i, c in enumerate(sets[k])}
    for c in sets[k]:
        t[c] = env.arr([vals[c]])
    out = f.sort_columns(t)
    got = list(out.colnames)
    if k == 'some':    # the order of the further pairs is not fixed
        got[2:6] = sorted(got[2:6])
    env.check('order', got == want[k])
    for c in sets[k]:
        env.check_eq('values of ' + c, out[c].data[0], vals[c])


@harness(timeout=80)
def facets(env):
    """every place on a facet of the gratings is where the table has it, and its grooves are in
    the direction of the table."""
    h = env.imp('marxs.missions.chandra.hess')
    hetg = h.HETG()
    env.check('number of facets', len(hetg.elements) == 336)
    y, z = [env.real(n, -1, 1) for n in 'yz']
    for k in (0, 191, 192, 300):
        t = hetg.hess[k]
        e = hetg.elements[k]
        size = env.num(920 if k >= 192 else 1035) / 1000 * env.num(254) / 20
        on = env.matmul(e.pos4d, env.arr([0, y, z, 1]))
        ux, uy = [[env.num(float(t[c + v])) for c in 'xyz'] for v in ('uxf', 'uyf')]
        cen = [env.num(float(t[c + 'c'])) for c in 'xyz']
        cen[0] = cen[0] + env.num(338209) / 1000 * env.num(254) / 10
        for i in range(3):
            env.check_near('place on facet %d %d' % (k, i), on[i],
                           cen[i] + y * size * ux[i] + z * size * uy[i], env.num(1) / 100)
        env.check('number %d' % k, e.id_num == k)
        g = e.e_groove_coos(env.arr([[0, 0]]))[0].reshape(-1)
        for i in range(3):
            env.check_near('groove %d %d' % (k, i), g[i], env.num(float(t['xyz'[i] + 'ul'])),
                           env.num(1) / 50)
