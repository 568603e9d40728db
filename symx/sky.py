"""Contract of astropy.coordinates for ICRS positions and offset frames, on exact reals.

The replay of the witnesses of every harness runs with the real astropy, so that a wrong contract
shows up as a disagreement.
"""
import numpy as np
import astropy.units as u

from . import npshim, sym


class SAngle(u.Quantity):
    _include_easy_conversion_members = True

    @property
    def deg(self):
        return self.to_value(u.deg)
    degree = deg

    @property
    def rad(self):
        return self.to_value(u.rad)
    radian = rad


def angle(x):
    """Symbolic angle from radians."""
    a = np.empty(np.shape(x), dtype=object)
    a[...] = x
    q = a.view(SAngle)
    q._set_unit(u.rad)
    return q.to(u.deg)


def radians(x, unit=None):
    if isinstance(x, str):
        raise sym.Unsupported('coordinate strings')
    xu = getattr(x, 'unit', None)
    if xu is not None:
        unit = xu
        x = x.value if isinstance(x, u.Quantity) else np.asarray(x, dtype=object)
    if unit is None:
        raise u.UnitsError('Longitude instances require units')
    q = npshim.oarr(x).view(u.Quantity)
    q._set_unit(u.Unit(unit))
    return np.asarray(q.to(u.rad).value, dtype=object)


def trig(a):
    c = npshim.emap(lambda v: sym.C.sincos(sym.lift(v))[0], a)
    s = npshim.emap(lambda v: sym.C.sincos(sym.lift(v))[1], a)
    return c, s


class Cartesian:
    def __init__(self, v):
        self.v = v

    @property
    def xyz(self):
        a = np.empty((3,) + np.shape(self.v[0]), dtype=object)
        for k in range(3):
            a[k] = self.v[k]
        q = a.view(u.Quantity)
        q._set_unit(u.dimensionless_unscaled)
        return q


class Offset:
    """SkyOffsetFrame"""

    def __init__(self, origin=None, rotation=0 * u.deg):
        self.origin, self.rotation = origin, rotation

    def matrix(self):
        lon, lat = self.origin.lonlat()
        (c1, s1), (c2, s2) = trig(lon), trig(lat)
        c3, s3 = trig(radians(self.rotation))
        m3 = [[c1, s1, 0], [-s1, c1, 0], [0, 0, 1]]
        m2 = [[c2, 0, s2], [0, 1, 0], [-s2, 0, c2]]     # by -lat about y
        m1 = [[1, 0, 0], [0, c3, -s3], [0, s3, c3]]     # by -rotation about x

        def mul(a, b):
            return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)]
                    for i in range(3)]
        return mul(m1, mul(m2, m3))


PLACES = []


def vector(lon, lat):
    """Unit vector to a place that was calculated by a Sky object, or None."""
    PLACES[:] = [p for p in PLACES if p[0] is sym.C]
    for _, a, b, v in PLACES:
        if not (a - lon).num and not (b - lat).num:
            return np.array(v, dtype=object)
    return None


class Sky:
    """SkyCoord"""

    def __init__(self, *args, unit=None, frame=None, ra=None, dec=None):
        self.frame = None
        self.v = None
        if len(args) == 1:
            o = args[0]
            if not isinstance(o, Sky):
                raise sym.Unsupported('SkyCoord of %r' % type(o))
            self.lon, self.lat, self.v, self.frame = o.lon, o.lat, o.v, o.frame
            return
        if len(args) == 2:
            ra, dec = args
        if isinstance(frame, Offset):
            self.frame = frame
        elif not (frame is None or isinstance(frame, Sky) or frame == 'icrs'):
            raise sym.Unsupported('frame %r' % (frame,))
        self.lon, self.lat = radians(ra, unit), radians(dec, unit)
        self.lon, self.lat = np.broadcast_arrays(self.lon, self.lat)

    @classmethod
    def make(cls, v, frame):
        s = cls.__new__(cls)
        s.v, s.frame, s.lon, s.lat = v, frame, None, None
        return s

    def lonlat(self):
        if self.lon is None:
            # free angles; `vector` knows to which place they belong
            shape = np.shape(self.v[0])
            self.lon, self.lat = np.empty(shape, dtype=object), np.empty(shape, dtype=object)
            c = sym.C
            for k in np.ndindex(shape):
                a, b = c.atomS(c.new_atom('lon')), c.atomS(c.new_atom('lat'))
                self.lon[k], self.lat[k] = a, b
                PLACES.append((c, a, b, tuple(np.asarray(x, dtype=object)[k] for x in self.v)))
        return self.lon, self.lat

    def vec(self):
        if self.v is None:
            (c1, s1), (c2, s2) = trig(self.lon), trig(self.lat)
            self.v = (c2 * c1, c2 * s1, s2)
        return self.v

    @property
    def cartesian(self):
        return Cartesian(self.vec())

    @property
    def isscalar(self):
        return np.shape(self.lon if self.lon is not None else self.v[0]) == ()

    @property
    def icrs(self):
        return self.transform_to('icrs')

    @property
    def ra(self):
        if self.frame is not None:
            raise AttributeError('ra')
        return angle(self.lonlat()[0])

    @property
    def dec(self):
        if self.frame is not None:
            raise AttributeError('dec')
        return angle(self.lonlat()[1])

    @property
    def spherical(self):
        return self

    def skyoffset_frame(self, rotation=None):
        return Offset(self, 0 * u.deg if rotation is None else rotation)

    def transform_to(self, frame):
        if not isinstance(frame, Offset):
            if isinstance(frame, Sky) and frame.frame is not None:
                frame = frame.frame
            else:
                frame = None
        if frame is self.frame:
            return self
        v = self.vec()
        if self.frame is not None:
            m = self.frame.matrix()
            v = tuple(sum(m[i][k] * v[i] for i in range(3)) for k in range(3))
        if frame is not None:
            m = frame.matrix()
            v = tuple(sum(m[k][i] * v[i] for i in range(3)) for k in range(3))
        return Sky.make(v, frame)

    def directional_offset_by(self, position_angle, separation):
        (cp, sp), (cs, ss) = trig(radians(position_angle)), trig(radians(separation))
        (c1, s1), (c2, s2) = trig(self.lonlat()[0]), trig(self.lonlat()[1])
        out = (c2 * c1, c2 * s1, s2)
        north = (-s2 * c1, -s2 * s1, c2)
        east = (-s1, c1, s1 * 0)
        v = tuple(cs * out[k] + ss * (cp * north[k] + sp * east[k]) for k in range(3))
        return Sky.make(np.broadcast_arrays(*v), None)
