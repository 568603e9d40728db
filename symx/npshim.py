"""Stand-in for the ``numpy``/``math`` modules inside the code under check.

Every function falls through to real numpy unless symbolic values are
involved.  Arrays that will hold reals are created with ``dtype=object`` so
that symbolic values can be stored in them.
"""
import builtins
import itertools
import math as _math
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import S, SBool, lift, Unsupported

FLOATS = {None, float, np.float64, np.float32, np.dtype(float), 'float', 'f8',
          'float64', 'd', np.dtype(object), object, np.floating, 'f4', 'f',
          'float32', np.dtype('f4'), np.longdouble, '<f8', '>f8'}


def is_float_dtype(dt):
    try:
        if dt in FLOATS:
            return True
    except TypeError:
        pass
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def has_sym(x, depth=0):
    if isinstance(x, (S, SBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def oarr(x):
    """Object ndarray (plain) of x."""
    if isinstance(x, np.ndarray):
        if x.dtype == object and type(x) is np.ndarray:
            return x
        return np.array(x, dtype=object, copy=True) if x.dtype == object else \
            np.asarray(x).astype(object)
    if isinstance(x, (S, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.array(x, dtype=object)


def out(a):
    """0-d object arrays become scalars."""
    if isinstance(a, np.ndarray) and a.ndim == 0 and a.dtype == object:
        return a[()]
    return a


def emap(f, *args):
    """Elementwise map with broadcasting."""
    arrs = [oarr(a) if not isinstance(a, np.ndarray) else
            (a if type(a) is np.ndarray else np.asarray(a)) for a in args]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = b.shape if b is not None else arrs[0].shape
    res = np.empty(shape, dtype=object)
    if shape == ():
        res[()] = f(*[a[()] for a in arrs])
        return res
    flat = res.ravel() if res.flags.c_contiguous else res.reshape(-1)
    its = b if b is not None else ((x,) for x in arrs[0].flat)
    for i, v in enumerate(its):
        flat[i] = f(*v)
    return flat.reshape(shape)


def boolmap(f, *args):
    r = emap(f, *args)
    if r.ndim == 0:
        v = r[()]
        return v if isinstance(v, SBool) else np.bool_(v)
    o = np.empty(r.shape, dtype=bool)
    for i, v in enumerate(r.flat):
        o.reshape(-1)[i] = bool(v)
    return o


def unwrap_units(x):
    return x


def s_unary(name, fconc):
    def f1(v):
        v = lift(v)
        if isinstance(v, float):
            with np.errstate(all='ignore'):
                return fconc(v)
        if v is None:
            raise Unsupported(name)
        return getattr(v, name)()

    real = getattr(np, name)

    def f(x, *args, **kw):
        if not has_sym(x):
            return real(x, *args, **kw)
        if hasattr(x, 'unit') and getattr(x, 'unit', None) is not None \
                and hasattr(x, 'to_value'):
            x = x.to_value('rad') if name in ('sin', 'cos', 'tan') else x
        o = kw.get('out', args[0] if args else None)
        r = emap(f1, x)
        if o is not None:
            o[...] = r
            return o
        return out(r)
    f.__name__ = name
    return f


def _sign1(v):
    v = lift(v)
    if isinstance(v, float):
        return _math.copysign(1, v) if v == v else v
    return lift(sym.C.sign(v))


def _wrap(fn1, real, boolean=False):
    def f(*args, **kw):
        pos = [a for a in args]
        if not any(has_sym(a) for a in pos):
            return real(*args, **kw)
        o = kw.get('out')
        r = (boolmap if boolean else emap)(fn1, *pos)
        if o is not None:
            o[...] = r
            return o
        return out(r) if not boolean else r
    f.__name__ = getattr(real, '__name__', 'f')
    return f


def _isnan1(v):
    return isinstance(v, (float, np.floating)) and v != v


def _isinf1(v):
    return isinstance(v, (float, np.floating)) and _math.isinf(v)


def _isfinite1(v):
    return not (_isnan1(v) or _isinf1(v))


def _max1(a, b):
    if _isnan1(a) or _isnan1(b):
        return _math.nan
    a, b = lift(a), lift(b)
    return a if a >= b else b


def _min1(a, b):
    if _isnan1(a) or _isnan1(b):
        return _math.nan
    a, b = lift(a), lift(b)
    return a if a <= b else b


def _close(a, b, rtol, atol, equal_nan):
    if _isnan1(a) or _isnan1(b):
        return equal_nan and _isnan1(a) and _isnan1(b)
    if _isinf1(a) or _isinf1(b):
        return a == b if not isinstance(a, S) and not isinstance(b, S) else False
    a, b = lift(a), lift(b)
    d = a - b
    if b.const:
        t = lift(atol) + lift(rtol) * abs(b)
        r = (d <= t) & (d >= -t)
        return r
    t1 = lift(atol) + lift(rtol) * abs(b)
    return (d <= t1) & (d >= -t1)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    return boolmap(lambda x, y: _close(x, y, rtol, atol, equal_nan), a, b)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    r = emap(lambda x, y: _close(x, y, rtol, atol, equal_nan), a, b)
    acc = sym.TRUE
    for v in r.flat:
        acc = acc & sym.as_bool(v)
    return bool(acc)


def array_equal(a, b, equal_nan=False):
    a, b = oarr(a), oarr(b)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.flat, b.flat))


def filled(shape, v, dtype=object):
    a = np.empty(shape, dtype=object)
    v = lift(v) if not isinstance(v, (np.ndarray, list, tuple)) else v
    if isinstance(v, (np.ndarray, list, tuple)):
        a[...] = v
    else:
        a.fill(v)
    return a


def _mk(name, val):
    real = getattr(np, name)

    def f(shape, dtype=None, order='C', **kw):
        if is_float_dtype(dtype):
            return filled(shape, val)
        return real(shape, dtype=dtype, order=order)
    f.__name__ = name
    return f


def _mk_like(name, val):
    real = getattr(np, name)

    def f(a, dtype=None, order='K', subok=True, shape=None):
        if not isinstance(a, np.ndarray):
            a = oarr(a) if has_sym(a) else np.asarray(a)
        dt = a.dtype if dtype is None else dtype
        if dt is None or is_float_dtype(dt):
            return filled(a.shape if shape is None else shape, val)
        return real(a, dtype=dt, order=order, subok=subok, shape=shape)
    f.__name__ = name
    return f


def eye(N, M=None, k=0, dtype=None, **kw):
    if not is_float_dtype(dtype):
        return np.eye(N, M, k, dtype=dtype)
    e = np.eye(N, M, k)
    return emap(lambda v: lift(float(v)), e)


def full(shape, fill_value, dtype=None, order='C', **kw):
    if dtype is None and isinstance(fill_value, (bool, np.bool_, int, np.integer, str)):
        return np.full(shape, fill_value)
    if is_float_dtype(dtype):
        return filled(shape, fill_value)
    return np.full(shape, fill_value, dtype=dtype)


def full_like(a, fill_value, dtype=None, **kw):
    if has_sym(a) or has_sym(fill_value) or is_float_dtype(dtype if dtype is not None else np.asarray(a).dtype):
        return filled(np.shape(a), fill_value)
    return np.full_like(a, fill_value, dtype=dtype, **kw)


def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype)


def _arr(name):
    real = getattr(np, name)

    def f(x, dtype=None, *args, **kw):
        if isinstance(x, (S, SBool)):
            return oarr(x)
        sy = has_sym(x)
        if sy:
            if dtype is not None and not is_float_dtype(dtype):
                dt = np.dtype(dtype)
                a = real(x, object)
                res = np.empty(a.shape, dtype=dt)
                for idx in np.ndindex(a.shape):
                    res[idx] = sym.cast_scalar(a[idx], dt)
                return res
            kw.pop('like', None)
            if isinstance(x, np.ndarray):
                kw2 = {k: v for k, v in kw.items() if k in ('copy', 'ndmin', 'subok', 'order')}
                return real(x, object, *args, **kw2)
            a = real(x, object, *args, **kw)
            for idx in np.ndindex(a.shape):    # 0-d arrays, e.g. quantities
                if isinstance(a[idx], np.ndarray) and not a[idx].ndim:
                    a[idx] = a[idx].view(np.ndarray)[()]
            return a
        if dtype is not None and is_float_dtype(dtype) and name == 'array':
            a = real(x, dtype, *args, **kw)
            return a
        return real(x, dtype, *args, **kw)
    f.__name__ = name
    return f


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (has_sym(start) or has_sym(stop)):
        return np.linspace(start, stop, num, endpoint, retstep, dtype, axis)
    num = int(num)
    div = num - 1 if endpoint else num
    step = (stop - start) / div if div else _math.nan
    a = np.empty((num,) + np.shape(start), dtype=object)
    for i in range(num):
        a[i] = start + step * i if i else start + 0 * step if div else start
    if endpoint and num > 1:
        a[-1] = stop
    return (a, step) if retstep else a


def arange(*args, **kw):
    if not any(has_sym(a) for a in args):
        return np.arange(*args, **kw)
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args[:3]
    n = -sym.C.floor(-(lift(stop) - start) / step)
    return np.array([start + i * lift(step) for i in range(max(n, 0))], dtype=object)


def clip(a, a_min=None, a_max=None, out=None, **kw):
    if 'min' in kw:
        a_min = kw['min']
    if 'max' in kw:
        a_max = kw['max']
    if not (has_sym(a) or has_sym(a_min) or has_sym(a_max)):
        return np.clip(a, a_min, a_max, out=out)

    def f(v):
        return v
    r = a
    if a_min is not None:
        r = emap(lambda x, m: x if _isnan1(x) else _max1(x, m), r, a_min)
    if a_max is not None:
        r = emap(lambda x, m: x if _isnan1(x) else _min1(x, m), r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r


def where(cond, *args):
    c = cond
    if isinstance(c, SBool):
        c = np.bool_(bool(c))
    elif isinstance(c, np.ndarray) and c.dtype == object:
        c = boolmap(lambda v: bool(v), c)
    if not args:
        return np.where(c)
    x, y = args
    if not (has_sym(x) or has_sym(y)):
        return np.where(c, x, y)
    return out(emap(lambda k, a, b: a if k else b, c, x, y))


def mean(a, axis=None, dtype=None, out=None, **kw):
    if not has_sym(a):
        return np.mean(a, axis=axis, **kw)
    a = oarr(a)
    if 'where' in kw:
        raise Unsupported('mean where')
    n = a.size if axis is None else np.prod([a.shape[i] for i in np.atleast_1d(axis)])
    if n == 0:
        return _math.nan
    return np.sum(a, axis=axis, **kw) / int(n)


def nansum(a, axis=None, **kw):
    if not has_sym(a):
        return np.nansum(a, axis=axis, **kw)
    return np.sum(emap(lambda v: lift(0) if _isnan1(v) else v, a), axis=axis, **kw)


def nanmean(a, axis=None, **kw):
    if not has_sym(a):
        return np.nanmean(a, axis=axis, **kw)
    a = oarr(a)
    n = np.sum(~boolmap(_isnan1, a), axis=axis)
    return nansum(a, axis) / n


def var(a, axis=None, ddof=0, **kw):
    if not has_sym(a):
        return np.var(a, axis=axis, ddof=ddof, **kw)
    a = oarr(a)
    m = mean(a, axis=axis, keepdims=True) if axis is not None else mean(a)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    return np.sum(d * d, axis=axis) / (n - ddof)


def std(a, axis=None, ddof=0, **kw):
    if not has_sym(a):
        return np.std(a, axis=axis, ddof=ddof, **kw)
    return F['sqrt'](var(a, axis=axis, ddof=ddof))


def average(a, axis=None, weights=None, returned=False, **kw):
    if not (has_sym(a) or has_sym(weights)):
        return np.average(a, axis=axis, weights=weights, returned=returned, **kw)
    a = oarr(a)
    if weights is None:
        r = mean(a, axis=axis)
        return (r, a.size) if returned else r
    w = oarr(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = np.broadcast_to(w.reshape(sh), a.shape)
    ws = np.sum(w, axis=axis)
    zero = emap(lambda v: bool(v == 0), oarr(ws))
    if builtins.any(zero.flat):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = np.sum(a * w, axis=axis) / ws
    return (r, ws) if returned else r


def _reduce(name, better):
    real = getattr(np, name)

    def f(a, axis=None, out=None, **kw):
        if not has_sym(a):
            return real(a, axis=axis, **kw)
        a = oarr(a)
        if a.size == 0:
            if 'initial' in kw:
                return kw['initial']
            raise ValueError('zero-size array to reduction operation')
        if 'initial' in kw:
            a = np.append(a.reshape(-1), np.array([kw['initial']], dtype=object))
        if axis is None:
            it = list(a.flat)
            r = it[0]
            for v in it[1:]:
                r = better(r, v)
            return lift(r) if not _isnan1(r) else r
        r = np.apply_along_axis(lambda v: oarr(f(v)), axis, a)
        if kw.get('keepdims'):
            r = np.expand_dims(r, axis)
        return r
    f.__name__ = name
    return f


def _nanred(base):
    def f(a, axis=None, **kw):
        if not has_sym(a):
            return getattr(np, 'nan' + base)(a, axis=axis, **kw)
        a = oarr(a)
        if axis is not None:
            return np.apply_along_axis(lambda v: oarr(f(v)), axis, a)
        v = [x for x in a.flat if not _isnan1(x)]
        if not v:
            return _math.nan
        return F[base](np.array(v, dtype=object))
    return f


def _argred(name, better):
    real = getattr(np, name)

    def f(a, axis=None, **kw):
        if not has_sym(a):
            return real(a, axis=axis, **kw)
        a = oarr(a)
        if axis is not None:
            return np.apply_along_axis(f, axis, a)
        it = list(a.flat)
        if not it:
            raise ValueError('attempt to get %s of an empty sequence' % name)
        for i, v in enumerate(it):
            if _isnan1(v):
                return i
        b = 0
        for i in range(1, len(it)):
            if better(lift(it[i]), lift(it[b])):
                b = i
        return np.int64(b)
    f.__name__ = name
    return f


def argsort(a, axis=-1, kind=None, **kw):
    if not has_sym(a):
        return np.argsort(a, axis=axis, kind=kind, **kw)
    a = oarr(a)
    if a.ndim > 1:
        return np.apply_along_axis(argsort, axis, a)
    idx = []
    for i, v in enumerate(a):        # stable insertion sort
        j = len(idx)
        while j > 0 and bool(lift(v) < lift(a[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return np.array(idx, dtype=int)


def sort(a, axis=-1, **kw):
    if not has_sym(a):
        return np.sort(a, axis=axis, **kw)
    a = oarr(a)
    return a[argsort(a)] if a.ndim == 1 else np.apply_along_axis(sort, axis, a)


def searchsorted(a, v, side='left', sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return np.searchsorted(a, v, side, sorter)
    a = list(oarr(a) if sorter is None else oarr(a)[sorter])

    def f(x):
        lo, hi = 0, len(a)
        while lo < hi:            # bisection, as numpy does
            mid = (lo + hi) // 2
            c = bool(lift(a[mid]) < lift(x)) if side == 'left' else \
                bool(lift(a[mid]) <= lift(x))
            if c:
                lo = mid + 1
            else:
                hi = mid
        return lo
    r = emap(f, v)
    return r[()] if r.ndim == 0 else r.astype(int)


def digitize(x, bins, right=False):
    if not (has_sym(x) or has_sym(bins)):
        return np.digitize(x, bins, right)
    b = oarr(bins)
    if len(b) > 1 and bool(lift(b[0]) > lift(b[-1])):
        r = searchsorted(b[::-1], x, side='left' if not right else 'right')
        return len(b) - r
    return searchsorted(b, x, side='left' if right else 'right')


def interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return np.interp(x, xp, fp, left, right, period)
    if period is not None:
        raise Unsupported('interp period')
    xp, fp = list(oarr(xp)), list(oarr(fp))

    def f(v):
        v = lift(v)
        if isinstance(v, float):
            return v
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if v < xp[i + 1]:
                d = lift(xp[i + 1]) - xp[i]
                return lift(fp[i]) + (lift(fp[i + 1]) - fp[i]) * (v - xp[i]) / d
        return fp[-1]
    return out(emap(f, x))


def histogram(a, bins=10, range=None, weights=None, density=None):
    if not (has_sym(a) or has_sym(bins) or has_sym(weights)):
        return np.histogram(a, bins=bins, range=range, weights=weights, density=density)
    if isinstance(bins, int):
        raise Unsupported('histogram with implicit bins')
    b = list(oarr(bins))
    h = [lift(0) if weights is not None else 0 for _ in b[1:]]
    w = oarr(weights).reshape(-1) if weights is not None else None
    for i, v in enumerate(oarr(a).flat):
        if _isnan1(v):
            continue
        v = lift(v)
        if bool(v < b[0]) or bool(v > b[-1]):
            continue
        k = len(b) - 2
        for j in builtins.range(len(b) - 1):
            if bool(v < b[j + 1]):
                k = j
                break
        h[k] = h[k] + (w[i] if w is not None else 1)
    hist = np.array(h, dtype=object if w is not None else int)
    if density:
        d = np.diff(np.array(b, dtype=object))
        hist = hist / d / np.sum(hist)
    return hist, bins


def unique_rows(a):
    """Sorted rows without duplicates."""
    rows = []
    for x in a:
        at = len(rows)
        for k, y in enumerate(rows):
            less = None
            for p, q in zip(x, y):
                d = lift(p) - q
                if bool(d == 0):
                    continue
                less = bool(d < 0)
                break
            if less is None:        # known already
                at = None
                break
            if less:
                at = k
                break
        if at is not None:
            rows.insert(at, x)
    return np.array([list(x) for x in rows], dtype=object).reshape(len(rows), a.shape[1])


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if not has_sym(a):
        return np.unique(a, return_index=return_index, return_inverse=return_inverse,
                         return_counts=return_counts, axis=axis, **kw)
    a = oarr(a)
    if axis == 0 and a.ndim == 2 and not (return_index or return_inverse or return_counts):
        return unique_rows(a)
    a = a.reshape(-1)
    order = argsort(a)
    vals, first, counts = [], [], []
    inv = np.zeros(len(a), dtype=int)
    for i in order:
        if vals and bool(lift(a[i]) == vals[-1]):
            counts[-1] += 1
        else:
            vals.append(lift(a[i]))
            first.append(i)
            counts.append(1)
        inv[i] = len(vals) - 1
    r = [np.array(vals, dtype=object)]
    if return_index:
        r.append(np.array(first))
    if return_inverse:
        r.append(inv)
    if return_counts:
        r.append(np.array(counts))
    return r[0] if len(r) == 1 else tuple(r)


def isin(a, b, invert=False, **kw):
    if not (has_sym(a) or has_sym(b)):
        return np.isin(a, b, invert=invert, **kw)
    bl = list(oarr(b).flat)
    return boolmap(lambda v: builtins.any(bool(v == w) for w in bl) != invert, a)


def cumsum(a, axis=None, **kw):
    if has_sym(a):
        return np.cumsum(oarr(a), axis=axis)
    return np.cumsum(a, axis=axis, **kw)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    if not (has_sym(y) or has_sym(x)):
        return np.trapezoid(y, x, dx, axis)
    y = oarr(y)
    d = np.diff(oarr(x)) if x is not None else dx
    return np.sum(d * (y[..., 1:] + y[..., :-1]) / lift(2), axis=axis)


def any_(a, axis=None, **kw):
    if isinstance(a, SBool):
        return bool(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.any(boolmap(bool, a), axis=axis, **kw)
    if isinstance(a, (list, tuple)) and has_sym(a):
        return np.any(boolmap(bool, oarr(a)), axis=axis, **kw)
    return np.any(a, axis=axis, **kw)


def all_(a, axis=None, **kw):
    if isinstance(a, SBool):
        return bool(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.all(boolmap(bool, a), axis=axis, **kw)
    if isinstance(a, (list, tuple)) and has_sym(a):
        return np.all(boolmap(bool, oarr(a)), axis=axis, **kw)
    return np.all(a, axis=axis, **kw)


def hypot1(a, b):
    return sym.C.sqrt(lift(a) * a + lift(b) * b)


def median(a, axis=None, **kw):
    if not has_sym(a):
        return np.median(a, axis=axis, **kw)
    a = oarr(a)
    if axis is not None:
        return np.apply_along_axis(lambda v: oarr(median(v)), axis, a)
    s = sort(a.reshape(-1))
    n = len(s)
    return s[n // 2] if n % 2 else (lift(s[n // 2 - 1]) + s[n // 2]) / 2


def array_str_any(*a, **k):
    return '<array>'


def count_nonzero(a, axis=None, **kw):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.count_nonzero(boolmap(bool, a), axis=axis)
    return np.count_nonzero(a, axis=axis, **kw)


def nonzero(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.nonzero(boolmap(lambda v: bool(v != 0) if not isinstance(v, SBool) else bool(v), a))
    return np.nonzero(a)


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    if not has_sym(a):
        return np.nan_to_num(a, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
    r = out(emap(lambda v: lift(nan) if _isnan1(v) else v, a))
    if not copy and isinstance(a, np.ndarray):
        a[...] = r
        return a
    return r


def logical(name, fn):
    real = getattr(np, name)

    def f(a, b, *args, **kw):
        if isinstance(a, SBool) and isinstance(b, (SBool, bool, np.bool_)) or \
                isinstance(b, SBool) and isinstance(a, (bool, np.bool_)):
            return fn(sym.as_bool(a), sym.as_bool(b))
        if has_sym(a) or has_sym(b):
            a = boolmap(bool, a)
            b = boolmap(bool, b)
        return real(a, b, *args, **kw)
    return f


def logical_not(a, **kw):
    if isinstance(a, SBool):
        return ~a
    if has_sym(a):
        a = boolmap(bool, a)
    return np.logical_not(a, **kw)


# ---------------------------------------------------------------- linalg
def norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord')
    x = oarr(x)
    if ord == 2 and axis is None and x.ndim == 2:
        raise Unsupported('spectral norm')
    s = np.sum(x * x, axis=axis, keepdims=keepdims)
    return F['sqrt'](s)


def minor(m, i, j):
    return np.delete(np.delete(m, i, 0), j, 1)


def det(m):
    if not has_sym(m):
        return np.linalg.det(m)
    m = oarr(m)
    if m.ndim > 2:
        r = np.empty(m.shape[:-2], dtype=object)
        for idx in np.ndindex(r.shape):
            r[idx] = det(m[idx])
        return r
    n = m.shape[0]
    if n == 1:
        return lift(m[0, 0])
    if n == 2:
        return lift(m[0, 0]) * m[1, 1] - lift(m[0, 1]) * m[1, 0]
    # expand along the row with most zeros
    def zeros(row):
        return builtins.sum(1 for v in row if isinstance(lift(v), S) and not lift(v).num)
    i = builtins.max(range(n), key=lambda k: zeros(m[k]))
    r = lift(0)
    for j in range(n):
        v = lift(m[i, j])
        if isinstance(v, S) and not v.num:
            continue
        t = v * det(minor(m, i, j))
        r = r + t if (i + j) % 2 == 0 else r - t
    return r


def inv(m):
    if not has_sym(m):
        return np.linalg.inv(m)
    m = oarr(m)
    if m.ndim > 2:
        r = np.empty(m.shape, dtype=object)
        for idx in np.ndindex(m.shape[:-2]):
            r[idx] = inv(m[idx])
        return r
    n = m.shape[0]
    d = det(m)
    if isinstance(d, S) and sym.C.sign_zero(d):
        raise np.linalg.LinAlgError('Singular matrix')
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = det(minor(m, j, i)) if n > 1 else lift(1)
            r[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return r


def solve(a, b):
    if not (has_sym(a) or has_sym(b)):
        return np.linalg.solve(a, b)
    return np.dot(inv(oarr(a)), b)


def cholesky(a):
    if not has_sym(a):
        return np.linalg.cholesky(a)
    a = oarr(a)
    n = a.shape[0]
    l = filled((n, n), 0)
    for i in range(n):
        for j in range(i + 1):
            s = lift(a[i, j])
            for k in range(j):
                s = s - l[i, k] * l[j, k]
            if i == j:
                if bool(s <= 0):
                    raise np.linalg.LinAlgError('Matrix is not positive definite')
                l[i, j] = sym.C.sqrt(s)
            else:
                l[i, j] = s / l[j, j]
    return l


class _Linalg(types.ModuleType):
    def __getattr__(self, n):
        return getattr(np.linalg, n)


linalg = _Linalg('numpy.linalg')
linalg.norm, linalg.det, linalg.inv, linalg.solve, linalg.cholesky = \
    norm, det, inv, solve, cholesky


# ---------------------------------------------------------------- random
class _Random(types.ModuleType):
    """Every draw is an arbitrary value within the contract of the generator."""

    def __getattr__(self, n):
        raise Unsupported('np.random.%s' % n)

    def _draw(self, kind, size, lo=None, hi=None, lo_strict=False, hi_strict=True):
        c = sym.C
        shape = () if size is None else (size if isinstance(size, tuple) else (size,))
        shape = tuple(int(x) if not isinstance(x, S) else int(x) for x in shape)
        r = np.empty(shape, dtype=object)
        for idx in np.ndindex(shape):
            i = c.new_atom('rnd_' + kind)
            v = c.atomS(i)
            l = lo[idx] if isinstance(lo, np.ndarray) and lo.shape == shape else lo
            h = hi[idx] if isinstance(hi, np.ndarray) and hi.shape == shape else hi
            if l is not None:
                c.assume(v > l if lo_strict else v >= l)
            if h is not None:
                c.assume(v < h if hi_strict else v <= h)
            r[idx] = v
        c.draws.append((kind, shape, r.copy()))
        return r[()] if shape == () else r

    def rand(self, *shape):
        return self._draw('rand', tuple(shape) if shape else None, 0, 1)

    def random(self, size=None):
        return self._draw('random', size, 0, 1)
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(oarr(low), oarr(high)).shape
        w = self._draw('uniform', size, 0, 1, hi_strict=False)
        if isinstance(w, np.ndarray):
            return oarr(low) + (oarr(high) - oarr(low)) * w
        return lift(low) + (lift(high) - low) * w

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(oarr(loc), oarr(scale)).shape
        z = self._draw('normal', size, -6, 6)
        return loc + z * scale

    def randn(self, *shape):
        return self._draw('randn', tuple(shape) if shape else None, -6, 6)

    def standard_normal(self, size=None):
        return self._draw('standard_normal', size, -6, 6)

    def exponential(self, scale=1.0, size=None):
        z = self._draw('exponential', size, 0, 50)
        return z * scale

    def poisson(self, lam=1.0, size=None):
        raise Unsupported('poisson')

    def choice(self, a, size=None, replace=True, p=None):
        c = sym.C
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None:
            pl = list(oarr(p))
            if len(pl) != len(opts):
                raise ValueError("'a' and 'p' must have same size")
            tot = lift(0)
            for v in pl:
                if bool(lift(v) < 0):
                    raise ValueError('probabilities are not non-negative')
                tot = tot + v
            if not bool(_close(tot, 1, 0, 1e-8, False)):
                raise ValueError('probabilities do not sum to 1')
        shape = () if size is None else (size if isinstance(size, tuple) else (size,))
        if not replace and np.prod(shape) > len(opts):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        r = np.empty(shape, dtype=object)
        ki = np.empty(shape, dtype=object)
        used = set()
        for idx in np.ndindex(shape):
            i = c.new_atom('rnd_choice')
            v = c.atomS(i)
            c.assume(v >= 0)
            c.assume(v < len(opts))
            k = c.floor(v)
            if p is not None and not bool(lift(pl[k]) > 0):
                raise sym.Infeasible()
            if not replace:
                if k in used:
                    raise sym.Infeasible()
                used.add(k)
            r[idx] = opts[k]
            ki[idx] = k
        c.draws.append(('choice', shape, ki))
        c.choice_log.append((ki.copy(), opts, None if p is None else list(pl)))
        if shape == ():
            return r[()]
        try:
            return np.array(r.tolist())if not has_sym(r) or all(isinstance(v, int) for v in r.flat) else r
        except Exception:
            return r

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        c = sym.C
        shape = () if size is None else (size if isinstance(size, tuple) else (size,))
        r = np.empty(shape, dtype=object)
        for idx in np.ndindex(shape):
            i = c.new_atom('rnd_int')
            v = c.atomS(i)
            c.assume(v >= low)
            c.assume(v < high)
            r[idx] = c.floor(v)
        c.draws.append(('randint', shape, r.copy()))
        return r[()] if shape == () else r.astype(int)

    def shuffle(self, x):
        """In place, any permutation."""
        k = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[:] = x[k].copy()
        else:
            x[:] = [x[i] for i in k]

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            return self._perm(int(x))
        return (x if isinstance(x, np.ndarray) else oarr(x))[self._perm(len(x))]

    def _perm(self, n):
        c = sym.C
        left, k = list(range(n)), []
        while len(left) > 1:
            i = c.new_atom('rnd_perm')
            v = c.atomS(i)
            c.assume(v >= 0)
            c.assume(v < len(left))
            k.append(left.pop(int(c.floor(v))))
        k = np.array(k + left, dtype=int)
        c.draws.append(('shuffle', k.shape, k.astype(object)))
        return k

    def seed(self, *a):
        return None


random = _Random('numpy.random')


# ---------------------------------------------------------------- the module
F = {}
for _n in ('sqrt', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'exp',
           'log', 'log10', 'floor', 'ceil', 'rint', 'trunc', 'square',
           'deg2rad', 'rad2deg', 'radians', 'degrees'):
    F[_n] = s_unary(_n, getattr(np, _n))


def _abs1(v):
    return abs(v)


F['abs'] = F['absolute'] = F['fabs'] = _wrap(_abs1, np.abs)
F['negative'] = _wrap(lambda v: -v, np.negative)
F['positive'] = _wrap(lambda v: v, np.positive)
F['reciprocal'] = _wrap(lambda v: 1 / lift(v), np.reciprocal)


def _sign(x, **kw):
    if not has_sym(x):
        kw.pop('dtype', None)
        return np.sign(x).astype(float) if isinstance(x, np.ndarray) and False else np.sign(x)
    return out(emap(_sign1, x))


F['sign'] = _sign
F['isnan'] = _wrap(_isnan1, np.isnan, True)
F['isinf'] = _wrap(_isinf1, np.isinf, True)
F['isfinite'] = _wrap(_isfinite1, np.isfinite, True)
F['maximum'] = _wrap(_max1, np.maximum)
F['minimum'] = _wrap(_min1, np.minimum)
F['fmax'] = _wrap(lambda a, b: b if _isnan1(a) else a if _isnan1(b) else _max1(a, b), np.fmax)
F['fmin'] = _wrap(lambda a, b: b if _isnan1(a) else a if _isnan1(b) else _min1(a, b), np.fmin)
F['arctan2'] = _wrap(lambda y, x: sym.C.atan2(lift(y), lift(x)), np.arctan2)
F['hypot'] = _wrap(hypot1, np.hypot)
F['mod'] = F['remainder'] = _wrap(lambda a, b: lift(a) % lift(b), np.mod)
F['power'] = _wrap(lambda a, b: lift(a) ** b, np.power)
F['float_power'] = F['power']
F['floor_divide'] = _wrap(lambda a, b: lift(a) // b, np.floor_divide)
F['add'] = _wrap(lambda a, b: a + b, np.add)
F['subtract'] = _wrap(lambda a, b: a - b, np.subtract)
F['multiply'] = _wrap(lambda a, b: a * b, np.multiply)
F['divide'] = F['true_divide'] = _wrap(lambda a, b: lift(a) / lift(b), np.divide)
for _n, _op in (('less', lambda a, b: a < b), ('less_equal', lambda a, b: a <= b),
                ('greater', lambda a, b: a > b), ('greater_equal', lambda a, b: a >= b),
                ('equal', lambda a, b: a == b), ('not_equal', lambda a, b: a != b)):
    F[_n] = _wrap(_op, getattr(np, _n), True)


def round_(a, decimals=0, **kw):
    if not has_sym(a):
        return np.round(a, decimals, **kw)
    return out(emap(lambda v: v if _isnan1(v) else lift(round(lift(v), decimals)), a))


F['round'] = F['around'] = round_
F.update(isclose=isclose, allclose=allclose, array_equal=array_equal,
         empty=_mk('empty', 0), zeros=_mk('zeros', 0), ones=_mk('ones', 1),
         empty_like=_mk_like('empty_like', 0), zeros_like=_mk_like('zeros_like', 0),
         ones_like=_mk_like('ones_like', 1), eye=eye, identity=identity,
         full=full, full_like=full_like,
         array=_arr('array'), asarray=_arr('asarray'), asanyarray=_arr('asanyarray'),
         ascontiguousarray=_arr('ascontiguousarray'),
         linspace=linspace, arange=arange, clip=clip, where=where, mean=mean,
         nansum=nansum, nanmean=nanmean, var=var, std=std, average=average,
         max=_reduce('max', _max1), min=_reduce('min', _min1),
         amax=_reduce('max', _max1), amin=_reduce('min', _min1),
         argmax=_argred('argmax', lambda a, b: bool(a > b)),
         argmin=_argred('argmin', lambda a, b: bool(a < b)),
         argsort=argsort, sort=sort, searchsorted=searchsorted, digitize=digitize,
         interp=interp, histogram=histogram, unique=unique, isin=isin, in1d=isin,
         cumsum=cumsum, trapezoid=trapezoid, trapz=trapezoid, any=any_, all=all_,
         median=median, count_nonzero=count_nonzero, nonzero=nonzero,
         nan_to_num=nan_to_num, logical_not=logical_not,
         logical_and=logical('logical_and', lambda a, b: a & b),
         logical_or=logical('logical_or', lambda a, b: a | b))
F['nanmax'] = _nanred('max')
F['nanmin'] = _nanred('min')


def concretise(x):
    """Replace constant symbolic values by floats; fail on symbolic ones."""
    if isinstance(x, S):
        return float(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        try:
            return x.astype(float)
        except (TypeError, ValueError):
            return x
    if isinstance(x, (list, tuple)):
        return type(x)(concretise(v) for v in x)
    return x


class NumpyShim(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(np, name)
        if callable(v) and not isinstance(v, type):
            if isinstance(v, np.ufunc):
                return v

            def f(*args, **kw):
                try:
                    return v(*args, **kw)
                except (TypeError, Unsupported):
                    try:
                        a2 = [concretise(a) for a in args]
                        k2 = {k: concretise(x) for k, x in kw.items()}
                    except Unsupported:
                        raise Unsupported('numpy.%s on symbolic values' % name)
                    return v(*a2, **k2)
            f.__name__ = name
            f.__wrapped__ = v
            return f
        return v


shim = NumpyShim('numpy')
for _k, _v in F.items():
    setattr(shim, _k, _v)
shim.linalg = linalg
shim.random = random


class MaShim(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np.ma, name)


ma = MaShim('numpy.ma')


def ma_masked_invalid(a, copy=True):
    a = getattr(a, 'value', a)
    if not has_sym(a):
        try:
            return np.ma.masked_invalid(a, copy=copy)
        except TypeError:
            pass
    d = np.asarray(a)
    m = np.ma.getmaskarray(a) | np.asarray(F['isfinite'](d) == False, dtype=bool)  # noqa
    return np.ma.MaskedArray(d.copy() if copy else d, mask=m)


def ma_average(a, axis=None, weights=None, returned=False, **kw):
    if not has_sym(np.ma.getdata(a)) and not has_sym(getattr(weights, 'value', weights)):
        return np.ma.average(a, axis=axis, weights=weights, returned=returned, **kw)
    if returned or kw:
        raise Unsupported('ma.average options')
    if hasattr(weights, 'unit') and weights.unit is not None:
        # what numpy does (it divides by the sum of weights, but multiplies without unit)
        r = ma_average(a, axis=axis, weights=weights.value)
        return r if r is np.ma.masked else r / weights.unit
    d, m = np.ma.getdata(a), np.ma.getmaskarray(a)
    w = np.asarray(getattr(weights, 'value', weights)) if weights is not None \
        else np.ones(d.shape)
    if w.shape != d.shape:
        raise Unsupported('ma.average: shape of weights')
    if weights is not None:
        m = m | np.ma.getmaskarray(weights)
    if axis is None:
        d, w, m = d.reshape(1, -1), w.reshape(1, -1), m.reshape(1, -1)
    else:
        d, w, m = [np.moveaxis(x, axis, -1) for x in (d, w, m)]
    res = np.empty(d.shape[:-1], dtype=object)
    mask = np.zeros(d.shape[:-1], dtype=bool)
    for i in np.ndindex(res.shape):
        num = den = lift(0)
        for k in range(d.shape[-1]):
            if not m[i + (k,)]:
                num = num + lift(d[i + (k,)]) * lift(w[i + (k,)])
                den = den + lift(w[i + (k,)])
        if bool(den == 0):
            mask[i] = True
            res[i] = lift(0)
        else:
            res[i] = num / den
    if axis is None:
        return np.ma.masked if mask[0] else res[0]
    return np.ma.MaskedArray(res, mask=mask) if mask.any() else out(res)


ma.masked_invalid = ma_masked_invalid
ma.average = ma_average
shim.ma = ma


class MathShim(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_math, name)


mathshim = MathShim('math')


def _m1(name):
    real = getattr(_math, name)

    def f(*args):
        args = [a.item() if isinstance(a, np.ndarray) and a.size == 1 and a.dtype == object
                else a for a in args]
        if any(isinstance(a, S) for a in args):
            if name == 'fabs':
                return abs(args[0])
            if name in ('floor', 'ceil', 'trunc'):
                return getattr(_math, name)(args[0])
            if name == 'atan2':
                return sym.C.atan2(lift(args[0]), lift(args[1]))
            if name == 'hypot':
                return hypot1(*args)
            if name == 'isnan' or name == 'isinf':
                return False
            if name == 'isfinite':
                return True
            if name == 'pow':
                return lift(args[0]) ** args[1]
            if name == 'log' and len(args) == 2:
                return lift(args[0]).log() / lift(args[1]).log()
            m = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan',
                 'radians': 'deg2rad', 'degrees': 'rad2deg'}.get(name, name)
            r = getattr(lift(args[0]), m)()
            if isinstance(r, float) and r != r:
                raise ValueError('math domain error')
            return r
        return real(*args)
    f.__name__ = name
    return f


for _n in ('sin', 'cos', 'tan', 'sqrt', 'acos', 'asin', 'atan', 'atan2', 'exp',
           'log', 'log10', 'fabs', 'floor', 'ceil', 'trunc', 'hypot', 'isnan',
           'isinf', 'isfinite', 'radians', 'degrees', 'pow'):
    setattr(mathshim, _n, _m1(_n))

# identity map: real function -> shim function
SHIMMED = {}
for _k, _v in F.items():
    _r = getattr(np, _k, None)
    if _r is not None:
        SHIMMED[id(_r)] = _v
for _k in ('norm', 'det', 'inv', 'solve', 'cholesky'):
    SHIMMED[id(getattr(np.linalg, _k))] = getattr(linalg, _k)
for _k in ('rand', 'uniform', 'normal', 'choice', 'exponential', 'randint', 'random'):
    pass
for _n in list(vars(mathshim)):
    if not _n.startswith('_') and hasattr(_math, _n):
        SHIMMED[id(getattr(_math, _n))] = getattr(mathshim, _n)
