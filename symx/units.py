"""astropy quantities that hold symbolic values (object arrays)."""
import functools
import math
import numbers
from fractions import Fraction

import numpy as np
import astropy.units as u
from astropy.units import core, quantity

from . import npshim, sym

_exact = {}


def exact(scale):
    """Exact value of a conversion factor that is rational or rational * pi, else the float."""
    if scale not in _exact:
        r = None
        for base, pi in ((scale, 0), (scale / math.pi, 1), (scale * math.pi, -1)):
            g = Fraction(base).limit_denominator(10 ** 7) if abs(base) >= 1 else \
                1 / Fraction(1 / base).limit_denominator(10 ** 7)
            if abs(float(g) - base) <= 4e-16 * abs(base) and (
                    g.denominator == 1 or g.numerator == 1 or
                    g.denominator * g.numerator < 10 ** 12):
                r = (g, pi)
                break
        _exact[scale] = r if r is not None else (Fraction(scale), 0)
    g, pi = _exact[scale]
    v = sym.lift(g)
    if pi:
        v = v * sym.lift(sym.PI) if pi > 0 else v / sym.lift(sym.PI)
    return v


def install():
    if getattr(core, '_symx', False):
        return
    core._symx = True
    numbers.Number.register(sym.S)
    new = quantity.Quantity.__new__

    @functools.wraps(new)
    def __new__(cls, value, unit=None, *args, **kw):
        if not isinstance(value, quantity.Quantity) and npshim.has_sym(value) and \
                not isinstance(value, (list, tuple)):
            vu = getattr(value, 'unit', None)
            a = np.array(value, dtype=object, copy=True)
            if a.dtype == object and type(a) is not np.ndarray:
                a = np.asarray(a).view(np.ndarray)
            q = a.view(cls)
            if vu is not None:
                q._set_unit(u.Unit(vu))
                return q.to(unit) if unit is not None else q
            q._set_unit(u.Unit(unit) if unit is not None else u.dimensionless_unscaled)
            return q
        if isinstance(value, (list, tuple)) and npshim.has_sym(value) and \
                not any(isinstance(v, quantity.Quantity) for v in value):
            return __new__(cls, npshim.oarr(value), unit)
        if isinstance(value, (list, tuple)) and len(value) and \
                all(isinstance(v, quantity.Quantity) for v in value) and \
                any(v.dtype == object for v in value):
            vu = u.Unit(unit) if unit is not None else value[0].unit
            vals = [v.to(vu).view(np.ndarray) for v in value]
            return __new__(cls, npshim.oarr([v[()] if isinstance(v, np.ndarray) and not v.ndim
                                             else v for v in vals]), vu)
        if isinstance(value, quantity.Quantity) and value.dtype == object:
            if unit is not None and u.Unit(unit) is not value.unit:
                value = value.to(unit)
            return np.array(value, copy=True, subok=True)
        return new(cls, value, unit, *args, **kw)
    quantity.Quantity.__new__ = staticmethod(__new__)

    dec = quantity.Quantity.decompose

    def decompose(self, bases=[]):
        if self.dtype != object:
            return dec(self, bases)
        new_unit = self.unit.decompose(bases=bases)
        v = exact(new_unit.scale) * self.view(np.ndarray)
        return self._new_view(v, new_unit / new_unit.scale)
    quantity.Quantity.decompose = decompose

    to_value = quantity.Quantity.to_value

    def exact_to_value(self, unit=None, equivalencies=[]):
        if self.dtype != object or unit is None:
            return to_value(self, unit, equivalencies)
        v = self.to(unit, equivalencies).view(np.ndarray)
        return v if v.shape else v[()]
    quantity.Quantity.to_value = exact_to_value

    for cls in (core.UnitBase,):
        orig = cls.get_converter

        def get_converter(self, other, equivalencies=[], _orig=orig):
            f = _orig(self, other, equivalencies)

            def conv(v, *a):
                if isinstance(v, sym.S) or (isinstance(v, np.ndarray) and v.dtype == object):
                    try:
                        s = self._to(core.Unit(other))
                    except core.UnitsError:
                        s = None
                    if s is not None:
                        return exact(s) * v if s != 1 else v * 1
                    if isinstance(v, sym.S) or v.ndim == 0:
                        x = np.empty((), dtype=object)
                        x[()] = v if isinstance(v, sym.S) else v[()]
                        r = f(x)
                        return r
                return f(v, *a)
            return conv
        cls.get_converter = get_converter

    # functions of a quantity: let astropy handle the units
    for k, fn in list(npshim.F.items()):
        real = getattr(np, k, None)
        if real is None:
            continue
        npshim.F[k] = _wrap(fn, real)
        setattr(npshim.shim, k, npshim.F[k])
        npshim.SHIMMED[id(real)] = npshim.F[k]


def _interp(x, xp, fp, left=None, right=None, period=None):
    """np.interp of quantities: convert the abscissa to the unit of xp, keep the unit of fp."""
    if isq(xp):
        x = u.Quantity(x, copy=True).to(xp.unit) if isq(x) else u.Quantity(x, '').to(xp.unit)
    elif isq(x):
        x = x.to(u.dimensionless_unscaled)
    out = getattr(fp, 'unit', None) if isq(fp) else None

    def val(v):
        if v is not None and isq(v):
            return v.to_value(out or u.dimensionless_unscaled)
        return v
    r = npshim.shim.interp(getattr(x, 'value', x), getattr(xp, 'value', xp),
                           getattr(fp, 'value', fp), val(left), val(right), period)
    if out is None:
        return r
    return u.Quantity(r, out)


def _digitize(x, bins, right=False):
    unit = x.unit if isq(x) else u.dimensionless_unscaled
    bins = bins.to(unit) if isq(bins) else bins
    return npshim.shim.digitize(getattr(x, 'value', x), getattr(bins, 'value', bins), right)


def _searchsorted(a, v, side='left', sorter=None):
    unit = a.unit if isq(a) else u.dimensionless_unscaled
    v = v.to(unit) if isq(v) else v
    return npshim.shim.searchsorted(getattr(a, 'value', a), getattr(v, 'value', v), side, sorter)


def _arange(*args, **kw):
    unit = next((a.unit for a in args if isq(a) and a.unit != u.dimensionless_unscaled),
                u.dimensionless_unscaled)
    vals = [a.to_value(unit) if isq(a) else a for a in args]
    vals = [v[()] if isinstance(v, np.ndarray) and not v.ndim else v for v in vals]
    r = npshim.shim.arange(*vals, **kw)
    return r if unit == u.dimensionless_unscaled else u.Quantity(r, unit)


def _inverse(name):
    def f(x):
        x = x.to(u.dimensionless_unscaled)
        return u.Quantity(getattr(npshim.shim, name)(x.value), u.rad)
    return f


SPECIAL = {np.arcsin: _inverse('arcsin'), np.arccos: _inverse('arccos'),
           np.arctan: _inverse('arctan'), np.arange: _arange, np.interp: _interp, np.digitize: _digitize, np.searchsorted: _searchsorted}


def isq(a):
    return isinstance(a, quantity.Quantity)


def _wrap(fn, real):
    def f(*args, **kw):
        if any(isq(a) for a in args) or (
                args and isinstance(args[0], (list, tuple)) and any(isq(a) for a in args[0])):
            if not any(npshim.has_sym(a) for a in args):
                return real(*args, **kw)
            if real in (np.array, np.asarray) and not isq(args[0]):
                return fn(*args, **kw)     # an array of the values, units are lost
            if real in SPECIAL:
                return SPECIAL[real](*args, **kw)
            try:
                return real(*args, **kw)
            except (TypeError, sym.Unsupported):
                raise sym.Unsupported('numpy.%s of a symbolic quantity' % fn.__name__)
        return fn(*args, **kw)
    f.__name__ = getattr(fn, '__name__', 'f')
    return f
