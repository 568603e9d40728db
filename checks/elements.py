"""Builders for optical elements and photon lists shared by several checks."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(HERE, 'data')


class Frame:
    """Placement of an element: x = c + R (zoom * local)."""

    def __init__(self, env, rot=5, c=(1, -2, 3), zoom=(1, 2, 4)):
        self.env = env
        self.R = env.rot(rot)
        self.c = env.arr(list(c))
        self.zoom = env.arr(list(zoom))
        self.kw = {'position': self.c.copy(), 'orientation': self.R.copy(),
                   'zoom': self.zoom.copy()}

    def kwargs(self):
        return {k: v.copy() for k, v in self.kw.items()}

    def pos(self, u):
        p = self.c + self.env.matmul(self.R, self.env.arr(list(u)))
        return self.env.arr([p[0], p[1], p[2], 1])

    def dir(self, d):
        g = self.env.matmul(self.R, self.env.arr(list(d)))
        return self.env.arr([g[0], g[1], g[2], 0])


def selector(env, orders=(-1, 0, 2), p=None):
    g = env.imp('marxs.optics.grating')
    return g.OrderSelector(list(orders), p=p)


def b_filter(env, kw):
    o = env.imp('marxs.optics.filter')
    return o.EnergyFilter(filterfunc=env.func('eff', 0, 1), **kw)


def b_detector(env, kw):
    o = env.imp('marxs.optics.detector')
    return o.FlatDetector(pixsize=0.5, **kw)


def b_grating(env, kw):
    o = env.imp('marxs.optics.grating')
    return o.FlatGrating(d=env.num(0.0005), order_selector=selector(env, (1,), [0.5]), **kw)


def b_cat(env, kw):
    o = env.imp('marxs.optics.grating')
    return o.CATGrating(d=env.num(0.0005), order_selector=selector(env, (1,), [0.5]), **kw)


def b_lens(env, kw):
    o = env.imp('marxs.optics.mirror')
    return o.PerfectLens(focallength=20, **kw)


def b_lens_refl(env, kw):
    o = env.imp('marxs.optics.mirror')
    f = env.func('refl', 0, 1)
    return o.PerfectLens(focallength=20, reflectivity_interpolator=lambda e, a, grid: f(e, a),
                         **kw)


def b_thinlens(env, kw):
    o = env.imp('marxs.optics.mirror')
    return o.ThinLens(focallength=20, **kw)


def b_brewster(env, kw):
    o = env.imp('marxs.optics.multiLayerMirror')
    return o.FlatBrewsterMirror(**kw)


def b_multilayer(env, kw):
    o = env.imp('marxs.optics.multiLayerMirror')
    return o.MultiLayerEfficiency(reflFile=os.path.join(DATA, 'refl.txt'),
                                  testedPolarization=os.path.join(DATA, 'pol.txt'), **kw)


def b_baffle(env, kw):
    o = env.imp('marxs.optics.baffles')
    return o.Baffle(**kw)


def b_radial(env, kw):
    import astropy.units as u
    o = env.imp('marxs.optics.scatter')
    return o.RadialMirrorScatter(inplanescatter=0.125 * u.rad, perpplanescatter=0.0625 * u.rad,
                                 **kw)


def b_random(env, kw):
    import astropy.units as u
    o = env.imp('marxs.optics.scatter')
    return o.RandomGaussianScatter(scatter=0.125 * u.rad, **kw)


def b_stack(env, kw):
    o = env.imp('marxs.optics.filter')
    det = env.imp('marxs.optics.detector')
    base = env.imp('marxs.optics.base')
    return base.FlatStack(elements=[o.EnergyFilter, det.FlatDetector],
                          keywords=[{'filterfunc': env.func('eff', 0, 1)}, {'pixsize': 0.5}],
                          id_col='chip', id_num=7, **kw)


def b_cylinder(env, kw):
    o = env.imp('marxs.optics.detector')
    return o.CircularDetector(pixsize=0.5, **kw)


def b_loop(env, kw):
    """An element that implements the one-photon-at-a-time interface."""
    base = env.imp('marxs.optics.base')

    class OneByOne(base.FlatOpticalElement):
        output_columns = ['extra']
        id_col = 'piece'

        def process_photon(self, dir, pos, energy, polarization):
            return -dir, pos, energy * 2, -polarization, 0.5, energy * 3

    return OneByOne(id_num=3, **kw)


def b_plainid(env, kw):
    o = env.imp('marxs.optics.filter')
    return o.EnergyFilter(filterfunc=env.func('eff', 0, 1), id_col='which', id_num=4, **kw)


ELEMENTS = {
    'filter': b_filter, 'filter_id': b_plainid, 'detector': b_detector, 'grating': b_grating,
    'cat': b_cat, 'lens': b_lens, 'lens_refl': b_lens_refl, 'thinlens': b_thinlens,
    'brewster': b_brewster, 'multilayer': b_multilayer, 'baffle': b_baffle,
    'radial': b_radial, 'random': b_random, 'stack': b_stack, 'loop': b_loop,
}

LOCAL = {'filter': (None, None), 'detector': ('det_x', 'det_y'), 'grating': ('grat_y', 'grat_z')}


def rect_hit(env, u, d, zoom):
    """Ray u + t d against the closed rectangle |y|<=zoom1, |z|<=zoom2 at x=0, t >= 0."""
    if d[0] == 0:
        return False, None
    t = -u[0] / d[0]
    y = u[1] + t * d[1]
    x = u[2] + t * d[2]
    return env.and_(t >= 0, y <= zoom[1], y >= -zoom[1], x <= zoom[2], x >= -zoom[2]), t


def snapshot(photons):
    return {c: photons[c].data.copy() for c in photons.colnames}


def row_unchanged(env, name, before, photons, i, skip=()):
    """Row i of every original column is exactly what it was."""
    for c, old in before.items():
        if c in skip:
            continue
        a, b = photons[c].data[i], old[i]
        if getattr(b, 'ndim', 0):
            env.check_vec('%s: %s' % (name, c), a, b)
        elif isinstance(b, (str,)):
            env.check('%s: %s' % (name, c), a == b)
        else:
            env.check_eq('%s: %s' % (name, c), a, b)
