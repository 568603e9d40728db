"""The harness environment.

A harness is one Python function ``h(env)``.  It is executed symbolically
(`SymEnv`: inputs are symbolic, the code under check is the patched import) and
concretely (`ConcEnv`: inputs come from a solver model, the code under check is
the unmodified import) so that every counterexample is replayed on the real
code with the same oracle.
"""
import json
import math
from fractions import Fraction

import numpy as np

from . import load


_MISSING = object()


class CheckFailed(Exception):
    pass


class Base:
    symbolic = False

    def imp(self, name):
        return load.imp(name)

    # vectors etc. built from the primitives
    def vec(self, name, n=3, lo=-10, hi=10):
        return self.arr([self.real('%s%d' % (name, i), lo, hi) for i in range(n)])

    def hpos(self, name, lo=-10, hi=10):
        v = self.vec(name, 3, lo, hi)
        return self.arr([v[0], v[1], v[2], 1])

    def hdir(self, name):
        u = self.unit(name)
        return self.arr([u[0], u[1], u[2], 0])

    def dot(self, a, b):
        r = 0
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def cross(self, a, b):
        return self.arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                         a[0] * b[1] - a[1] * b[0]])

    def norm2(self, a):
        return self.dot(a, a)

    def matmul(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return np.dot(a, b)

    ROTS = [  # exact rational rotation matrices (from integer quaternions)
        (1, 0, 0, 0), (1, 1, 0, 0), (2, 1, 0, 0), (2, 0, 1, 0), (2, 0, 0, 1),
        (3, 1, 2, 1), (1, 2, 3, 4), (4, -1, 2, -3), (1, 0, 0, -1), (3, 1, 1, 0)]

    def rot(self, k):
        """Exact rational rotation matrix number k."""
        w, x, y, z = self.ROTS[k] if isinstance(k, int) else k
        n = w * w + x * x + y * y + z * z
        m = [[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
             [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
             [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]]
        return self.arr([[Fraction(v, n) for v in r] for r in m])

    def pos4d(self, pos, rot, zoom):
        """4x4 matrix translation * rotation * zoom, entries as given."""
        m = [[rot[i][j] * zoom[j] for j in range(3)] + [pos[i]] for i in range(3)]
        return self.arr(m + [[0, 0, 0, 1]])

    def photons(self, n, pos=None, dir=None, energy=None, pol=None,
                prob=None, extra=None):
        from astropy.table import Table
        t = Table()
        t['pos'] = self.arr(pos)
        t['dir'] = self.arr(dir)
        t['energy'] = self.arr(energy if energy is not None else [1] * n)
        if pol is not None:
            t['polarization'] = self.arr(pol)
        t['probability'] = self.arr(prob if prob is not None else [1] * n)
        for k, v in (extra or {}).items():
            t[k] = v
        return t

    def check_vec(self, name, a, b, **kw):
        a = np.asarray(a, dtype=object).reshape(-1) if self.symbolic else np.asarray(a).reshape(-1)
        b = np.asarray(b, dtype=object).reshape(-1) if self.symbolic else np.asarray(b).reshape(-1)
        if a.shape != b.shape:
            self.check('%s(shape %s vs %s)' % (name, a.shape, b.shape), False)
            return
        for i in range(len(a)):
            self.check_eq('%s[%d]' % (name, i), a[i], b[i], **kw)

    def check_unit(self, name, v, **kw):
        self.check_eq(name, self.dot(v, v), 1, **kw)

    def draws(self, *kinds):
        """Flat list of the random numbers drawn so far (of these kinds)."""
        r = []
        for k, shape, vals in self.drawlog():
            if not kinds or k in kinds:
                r += list(np.asarray(vals, dtype=object).reshape(-1))
        return r

    def check_choice(self, name, i, got, options, p):
        """The i-th random decision is `got`, one of `options` taken with probabilities
        proportional to p: either the generator was asked for exactly that, or a uniform number
        is compared with the cumulative probabilities in the order of the options."""
        log = [(int(k), o, q) for ks, o, q in self.choicelog()
               for k in np.asarray(ks, dtype=object).reshape(-1)]
        tot = sum(p, self.num(0))
        self.check(name + ': is one of the options', any(self.same(got, o) for o in options))
        if log:
            k, o, q = log[i]
            self.check(name + ': options offered', len(o) == len(options) and all(
                self.same(a, b) for a, b in zip(o, options)))
            self.check(name + ': is what was drawn', self.same(o[k], got))
            if q is None:
                q = [self.num(1) / len(o)] * len(o)
            for j in range(len(options)):
                self.check_eq(name + ': probability of option %d' % j, q[j] * tot, p[j])
        else:
            u = self.draws('rand', 'random', 'uniform')[i]
            cum = self.num(0)
            for j, o in enumerate(options):
                if self.same(got, o):
                    self.check_le(name + ': not before its turn', cum, u * tot)
                    self.check_le(name + ': not after its turn', u * tot, cum + p[j])
                    self.check_lt(name + ': can occur at all', 0, p[j])
                cum = cum + p[j]

    def drawn(self, name, got, forms, used):
        """`got` (list of numbers) is forms(u) for a uniformly distributed random number u on
        [0, 1] that is not in `used` (from which nothing else was made)."""
        got = list(got)
        cand = [(i, v) for i, u in enumerate(self.draws('rand', 'random', 'uniform'))
                if i not in used for v in (u, 1 - u)]
        for i, v in cand:
            if all(self.same(a, b) for a, b in zip(got, forms(v))):
                used.add(i)
                self.check(name, True)
                return v
        if self.symbolic:    # with which numbers does it differ from all of them?
            self.check(name, self.or_(False, *[
                self.allof([self.eq(a, b) for a, b in zip(got, forms(v))])
                for i, v in cand[:6]]))
        else:
            self.check(name, False)
        return None

    def same(self, a, b):
        a, b = self.num(a), self.num(b)
        if self.symbolic:
            return isinstance(a, type(b)) and not isinstance(a, float) and not (a - b).num
        return abs(a - b) < 1e-9

    def close(self, a, b, tol=1e-5):
        """Same formula up to rounded constants (to find what belongs together)."""
        a, b = self.num(a), self.num(b)
        if self.symbolic:
            return isinstance(a, type(b)) and not isinstance(a, float) and \
                all(abs(c) < tol for c in (a - b).num.values())
        return abs(a - b) < tol

    def patch(self, obj, name, value):
        """Replace obj.name for the rest of this run."""
        self.patched.append((obj, name, obj.__dict__.get(name, _MISSING)))
        setattr(obj, name, value)

    def unpatch(self):
        while self.patched:
            obj, name, old = self.patched.pop()
            if old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def raises(self, exc, f):
        """True if f() raises exc."""
        try:
            f()
        except exc:
            return True
        return False

    def allof(self, conds):
        r = True
        for c in conds:
            r = self.and_(r, c)
        return r


class SymEnv(Base):
    symbolic = True

    def __init__(self, ctx, report):
        from . import npshim, sym
        self.sym = sym
        self.C = ctx
        self.np = npshim.shim
        self.math = npshim.mathshim
        self.report = report
        self.PI = sym.lift(sym.PI)
        self.choices = {}
        self.patched = []

    def drawlog(self):
        return self.C.draws

    def choicelog(self):
        return self.C.choice_log

    # ---- inputs
    def real(self, name, lo=None, hi=None, nonzero=False):
        c = self.C
        i = c.new_atom(name)
        v = c.atomS(i)
        c.inputs.append((name, v, 'real'))
        if lo is not None:
            c.assume(v >= lo)
        if hi is not None:
            c.assume(v <= hi)
        if nonzero:
            c.assume(v != 0)
        return v

    def positive(self, name, hi=None):
        c = self.C
        i = c.new_atom(name)
        v = c.atomS(i)
        c.inputs.append((name, v, 'real'))
        c.assume(v > 0)
        if hi is not None:
            c.assume(v <= hi)
        return v

    def unit(self, name, n=3):
        """Unit vector with arbitrary direction."""
        from . import poly as P
        c = self.C
        ids = [c.new_atom('%s%d' % (name, k)) for k in range(n)]
        p = {(): 1}
        for k in ids[:-1]:
            p = P.sub(p, {((k, 2),): 1})
        c.unit_rule(ids[-1], p)
        vs = [c.atomS(k) for k in ids]
        for k, v in zip(ids, vs):
            c.inputs.append((c.names[k], v, 'real'))
            if k != ids[-1]:
                c.defs[k].append((self.sym.TRUE, frozenset((ids[-1],))))
        return self.arr(vs)

    def angle(self, name, lo=None, hi=None):
        """Angle; its value, sine and cosine are all available."""
        c = self.C
        i = c.new_atom(name)
        v = c.atomS(i)
        if lo is not None:
            c.assume(v >= lo)
        if hi is not None:
            c.assume(v <= hi)
        cs, sn = c.trig_atom(((i, 1),), 1)
        c.inputs.append((name, (v, cs, sn), 'angle'))
        return v

    def bool(self, name):
        v = self.real(name, 0, 1)
        r = bool(v > Fraction(1, 2))
        return r

    def choice(self, name, options):
        """One of the options, chosen by the solver (forks)."""
        c = self.C
        v = self.real(name, 0, len(options) - 1)
        k = c.floor(v + Fraction(1, 2))
        return options[k]

    def func(self, name, lo=None, hi=None, lo_strict=False):
        """Arbitrary real function (same value for same argument)."""
        c = self.C

        def f(*args, **kw):
            flat = [a for a in args]
            if any(isinstance(a, np.ndarray) and a.ndim for a in flat):
                from . import npshim
                return npshim.emap(lambda *x: f1(*x), *flat)
            return f1(*flat)

        table = []
        c.inputs.append((name, table, 'func'))

        def f1(*args):
            args = [self.sym.lift(a.item() if isinstance(a, np.ndarray) else a) for a in args]
            for old, val in table:
                d = [a - b for a, b in zip(args, old)]
                if all(x.const and x.cval() == 0 for x in d):
                    return val
            i = c.new_atom(name)
            v = c.atomS(i)
            if lo is not None:
                c.assume(v > lo if lo_strict else v >= lo)
            if hi is not None:
                c.assume(v <= hi)
            for old, val in table:     # congruence
                eqs = self.sym.TRUE
                for a, b in zip(args, old):
                    eqs = eqs & c.compare(a, b, '==')
                cc = self.sym.b_implies(eqs, c.compare(v, val, '=='))
                c.path.append((cc, cc.ats))
            table.append((args, v))
            return v
        return f

    # ---- values
    def num(self, x):
        return self.sym.lift(x)

    def arr(self, x):
        a = np.array(x, dtype=object)
        flat = a.reshape(-1)
        for i in range(flat.size):
            l = self.sym.lift(flat[i])
            if l is not None:
                flat[i] = l
        return flat.reshape(a.shape)

    def sqrt(self, x):
        return self.C.sqrt(self.sym.lift(x))

    def cos(self, x):
        return self.C.sincos(self.sym.lift(x))[0]

    def sin(self, x):
        return self.C.sincos(self.sym.lift(x))[1]

    def exp(self, x):
        return self.C.func('exp', self.sym.lift(x))

    def log(self, x):
        return self.C.func('log', self.sym.lift(x))

    def isnan(self, x):
        return isinstance(x, float) and x != x

    def isfinite(self, x):
        return not (isinstance(x, (float, np.floating)) and not math.isfinite(x))

    def f(self, x):
        """Python object for messages."""
        return x

    # ---- conditions
    def assume(self, cond):
        b = self.sym.as_bool(cond)
        if b is None:
            b = self.sym.as_bool(bool(cond))
        if b is self.sym.FALSE:
            raise self.sym.Infeasible()
        self.C.assume(b)

    def skip(self, why=''):
        raise self.sym.Skip(why)

    def and_(self, *cs):
        r = self.sym.TRUE
        for c in cs:
            r = r & self.sym.as_bool(c)
        return r

    def or_(self, *cs):
        r = self.sym.FALSE
        for c in cs:
            r = r | self.sym.as_bool(c)
        return r

    def not_(self, c):
        return ~self.sym.as_bool(c)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def eq(self, a, b):
        a, b = self.sym.lift(a), self.sym.lift(b)
        if isinstance(a, float) or isinstance(b, float):
            return a == b if isinstance(a, float) and isinstance(b, float) else False
        return a == b

    # ---- checks
    def check(self, name, cond):
        self.report.check(self, name, cond)

    def check_eq(self, name, a, b, tol=None):
        a, b = self.sym.lift(a), self.sym.lift(b)
        if a is None or b is None:
            self.report.check(self, name, False)
            return
        if isinstance(a, float) or isinstance(b, float):
            ok = isinstance(a, float) and isinstance(b, float) and \
                (a == b or (a != a and b != b))
            self.report.check(self, name, ok)
            return
        self.report.check_eq(self, name, a, b)

    def check_le(self, name, a, b, tol=None):
        a, b = self.sym.lift(a), self.sym.lift(b)
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0
            fb = b if isinstance(b, float) else 0
            self.report.check(self, name, fa <= fb)
            return
        self.report.check_le(self, name, a, b)

    def check_lt(self, name, a, b):
        a, b = self.sym.lift(a), self.sym.lift(b)
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0
            fb = b if isinstance(b, float) else 0
            self.report.check(self, name, fa < fb)
            return
        self.report.check(self, name, a < b)

    def check_near(self, name, a, b, tol):
        """|a - b| <= tol"""
        a, b = self.sym.lift(a), self.sym.lift(b)
        if isinstance(a, float) or isinstance(b, float):
            self.report.check(self, name, False)
            return
        d = a - b
        self.report.check(self, name, (d <= tol) & (d >= -self.sym.lift(tol)))


class ConcEnv(Base):
    symbolic = False

    def __init__(self, values, draws=()):
        self.values = values
        self.np = np
        self.math = math
        self.PI = math.pi
        self.failed = []
        self.passed = []
        self.record = {}
        self.recorded = list(draws)
        self.taken = None
        self.patched = []
        self.chosen = []
        self.rtol = 1e-6

    def drawlog(self):
        return self.recorded if self.taken is None else self.recorded[:self.taken]

    def choicelog(self):
        return self.chosen

    def real(self, name, lo=None, hi=None, nonzero=False):
        v = float(self.values[name])
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def positive(self, name, hi=None):
        return float(self.values[name])

    def unit(self, name, n=3):
        v = np.array([float(self.values['%s%d' % (name, k)]) for k in range(n)])
        return v / np.linalg.norm(v)

    def angle(self, name, lo=None, hi=None):
        v = float(self.values[name])
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def bool(self, name):
        return self.values[name] > 0.5

    def choice(self, name, options):
        return options[int(math.floor(self.values[name] + 0.5))]

    def func(self, name, lo=None, hi=None, lo_strict=False):
        table = self.values.get(name, [])

        def f1(*args):
            best, bd = None, None
            for a, v in table:
                d = sum(abs(float(x) - float(y)) for x, y in zip(a, args))
                if bd is None or d < bd:
                    best, bd = v, d
            if best is None:
                best = 0.5 * ((lo or 0) + (hi if hi is not None else 1))
            return best

        def f(*args, **kw):
            if any(np.ndim(a) for a in args):
                return np.vectorize(f1, otypes=[float])(*args)
            return f1(*args)
        return f

    def num(self, x):
        return float(x)

    def arr(self, x):
        return np.array(x, dtype=object).astype(float)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def isnan(self, x):
        return bool(np.isnan(x))

    def isfinite(self, x):
        return bool(np.isfinite(x))

    def f(self, x):
        return x

    def assume(self, cond):
        if not np.all(cond):
            # rounding may break an assumption by a hair; note it
            self.record.setdefault('assumption_failed', 0)
            self.record['assumption_failed'] += 1

    def skip(self, why=''):
        from .sym import Skip
        raise Skip(why)

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def eq(self, a, b):
        return abs(a - b) <= 1e-9 * (1 + abs(b))

    def _note(self, name, ok, what=''):
        (self.passed if ok else self.failed).append((name, what))

    def check(self, name, cond):
        self._note(name, bool(cond))

    def check_eq(self, name, a, b, tol=None):
        if a is None or b is None:
            self._note(name, False, '%r %r' % (a, b))
            return
        a, b = float(a), float(b)
        if math.isnan(b) or math.isinf(b):
            ok = (math.isnan(a) and math.isnan(b)) or a == b
        else:
            t = self.rtol if tol is None else tol
            ok = abs(a - b) <= t * (1 + abs(b))
        self._note(name, ok, '%r should be %r' % (a, b))

    def check_le(self, name, a, b, tol=None):
        a, b = float(a), float(b)
        t = self.rtol if tol is None else tol
        self._note(name, a <= b + t * (1 + abs(b)), '%r should be <= %r' % (a, b))

    def check_lt(self, name, a, b):
        a, b = float(a), float(b)
        self._note(name, a < b, '%r should be < %r' % (a, b))

    def check_near(self, name, a, b, tol):
        a, b = float(a), float(b)
        self._note(name, abs(a - b) <= float(tol) + self.rtol * (1 + abs(b)),
                   '%r should be within %r of %r' % (a, tol, b))


class RescueEnv(ConcEnv):
    """Inputs are picked within the stated bounds, from a seed.  Only used for harnesses that
    the solver could not decide: what fails here fails on the real code."""

    def __init__(self, seed):
        import random
        super().__init__({}, [])
        self.rnd = random.Random(seed)
        self.counts = {}

    def pick(self, lo, hi):
        lo = -50.0 if lo is None else float(lo)
        hi = max(50.0, lo + 100) if hi is None else float(hi)
        k = self.rnd.random()
        if k < 0.15 and lo <= 0 < hi:
            return 0.0
        if k < 0.4 and hi - lo >= 2:
            return float(self.rnd.randint(math.ceil(lo), math.floor(hi)))
        if k < 0.7 and hi - lo > 4:      # values of comparable size
            c = min(max(0.0, lo), hi)
            lo, hi = max(lo, c - 3), min(hi, c + 3)
        return lo + (hi - lo) * self.rnd.randint(1, 4095) / 4096

    def real(self, name, lo=None, hi=None, nonzero=False):
        v = self.pick(lo, hi)
        while nonzero and v == 0:
            v = self.pick(lo, hi)
        self.values[name] = v
        return v

    def positive(self, name, hi=None):
        v = self.pick(0, hi)
        while v <= 0:
            v = self.pick(0, hi)
        self.values[name] = v
        return v

    def unit(self, name, n=3):
        for k in range(n):
            self.values['%s%d' % (name, k)] = self.rnd.randint(-7, 7) + 0.25
        return super().unit(name, n)

    def angle(self, name, lo=None, hi=None):
        v = self.pick(-math.pi if lo is None else lo, math.pi if hi is None else hi)
        self.values[name] = v
        return v

    def bool(self, name):
        self.values[name] = float(self.rnd.random() < 0.5)
        return super().bool(name)

    def choice(self, name, options):
        self.values[name] = float(self.rnd.randrange(len(options)))
        return super().choice(name, options)

    def func(self, name, lo=None, hi=None, lo_strict=False):
        table = self.values.setdefault(name, [])
        seen = {}

        def f1(*args):
            key = tuple(float(a) for a in args)
            if key not in seen:
                v = self.pick(lo or 0, 1 if hi is None else hi)
                while lo_strict and v <= (lo or 0):
                    v = self.pick(lo or 0, 1 if hi is None else hi)
                seen[key] = v
                table.append([list(key), v])
            return seen[key]

        def f(*args, **kw):
            if any(np.ndim(a) for a in args):
                return np.vectorize(f1, otypes=[float])(*args)
            return f1(*args)
        return f

    def assume(self, cond):
        if not np.all(cond):
            self.skip()
