"""Symbolic reals for executing the real marxs code over z3.

``S`` is a real-valued rational function of *atoms* (inputs, square roots,
sines, ...) kept in normal form (see `poly`).  ``SBool`` is a condition on such
values; asking for its truth value forks the execution (see `Ctx.branch`).
"""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import poly as P
from . import solver
from .solver import z3

PI = Fraction(math.pi)


def rat_sqrt(q):
    """Square root of a rational number if that is rational, else None."""
    q = Fraction(q)
    if q < 0:
        return None
    r = Fraction(math.isqrt(q.numerator), math.isqrt(q.denominator))
    return r if r * r == q else None



class Infeasible(BaseException):
    """The current path has no model."""


class PathLimit(BaseException):
    """Too many decisions / forks."""


class Unsupported(Exception):
    """The engine cannot encode this operation."""


class Skip(BaseException):
    """The harness declares this path outside of the claim."""


C = None   # current context


def set_ctx(c):
    global C
    C = c


def to_frac(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return P.cnorm(x)
    return P.cnorm(Fraction(float(x)))


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, Fraction,
                          np.bool_))


def lift(x):
    """S for finite numbers; float nan/inf stay floats; None if not a number."""
    if isinstance(x, S):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        if hasattr(x, 'unit'):
            return None
        return lift(x.item())
    if is_num(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return float(x)
        return S(P.const(to_frac(x)))
    if isinstance(x, SBool):
        return lift(1 if x else 0)
    return None


RELS = ('<', '<=', '==', '!=', '>', '>=')


ZVARS = []
ZPOLY = {}
_ZNUM = {}


def zvar(i):
    """z3 variable of atom number i (shared by all paths)."""
    while len(ZVARS) <= i:
        ZVARS.append(z3.Real('x%d' % len(ZVARS)))
    return ZVARS[i]


def znum(c):
    r = _ZNUM.get(c)
    if r is None:
        r = _ZNUM[c] = z3.RealVal(str(c))
    return r


_CTX = z3.main_ctx()
_MkMul, _MkAdd = z3.Z3_mk_mul, z3.Z3_mk_add


def _nary(mk, args):
    if len(args) == 1:
        return args[0]
    n = len(args)
    arr = (z3.Ast * n)()
    for i, x in enumerate(args):
        arr[i] = x.as_ast()
    return z3.ArithRef(mk(_CTX.ref(), n, arr), _CTX)


def zpoly(p):
    k = P.key(p)
    z = ZPOLY.get(k)
    if z is None:
        if len(ZPOLY) > 200000:
            ZPOLY.clear()
        terms = []
        for m, c in p.items():
            fs = []
            if c != 1 or not m:
                fs.append(znum(c))
            for a, e in m:
                fs.extend([zvar(a)] * e)
            terms.append(_nary(_MkMul, fs))
        z = _nary(_MkAdd, terms) if terms else znum(0)
        ZPOLY[k] = z
    return z


class SBool:
    """Condition; its z3 expression is only built when a solver needs it."""
    __slots__ = ('_z', 'op', 'atom', 'ats')

    def __init__(self, z, atom=None, ats=frozenset(), op=None):
        self._z = z
        self.atom = atom      # (primitive poly, rel) or None
        self.ats = ats
        self.op = op

    @property
    def z(self):
        if self._z is None:
            if self.atom is not None:
                q, rel = self.atom
                zp, o = zpoly(q), znum(0)
                self._z = {'<': zp.__lt__, '<=': zp.__le__, '==': zp.__eq__,
                           '!=': zp.__ne__, '>': zp.__gt__, '>=': zp.__ge__}[rel](o)
            else:
                f, args = self.op
                self._z = f(*[x.z for x in args])
        return self._z

    def const(self):
        if self._z is _ZT:
            return True
        if self._z is _ZF:
            return False
        return None

    def __bool__(self):
        return C.branch(self)

    def __and__(self, o):
        o = as_bool(o)
        if o is None:
            return NotImplemented
        if self is FALSE or o is TRUE:
            return self
        if o is FALSE or self is TRUE:
            return o
        return SBool(None, None, self.ats | o.ats, (z3.And, (self, o)))
    __rand__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is None:
            return NotImplemented
        if self is TRUE or o is FALSE:
            return self
        if o is TRUE or self is FALSE:
            return o
        return SBool(None, None, self.ats | o.ats, (z3.Or, (self, o)))
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __invert__(self):
        if self is TRUE:
            return FALSE
        if self is FALSE:
            return TRUE
        if self.atom is not None:
            q, rel = self.atom
            return SBool(None, (q, NEG[rel]), self.ats)
        return SBool(None, None, self.ats, (z3.Not, (self,)))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = None

    def __mul__(self, o):
        return (1 if self else 0) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return (1 if self else 0) + o
    __radd__ = __add__

    def __sub__(self, o):
        return (1 if self else 0) - o

    def __rsub__(self, o):
        return o - (1 if self else 0)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % (self.z,)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return int(self)


def as_bool(o):
    if isinstance(o, SBool):
        return o
    if isinstance(o, (bool, np.bool_)):
        return TRUE if o else FALSE
    return None


def b_implies(a, b):
    return SBool(None, None, a.ats | b.ats, (z3.Implies, (a, b)))


def b_iff(a, b):
    return SBool(None, None, a.ats | b.ats, (lambda x, y: x == y, (a, b)))


NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
_ZT, _ZF = z3.BoolVal(True), z3.BoolVal(False)
TRUE = SBool(_ZT)
FALSE = SBool(_ZF)


def zof(c):
    return c.z if isinstance(c, SBool) else c


class S(numbers.Real):
    __slots__ = ('num', 'den', 'sq', 'nn')

    def __init__(self, num, den=()):
        self.num = num
        self.nn = False       # a sum of products of squares: nonnegative
        self.sq = None        # self >= 0 and self**2 == sq, if known
        self.den = den        # tuple of (factor id, exponent)

    # -- inspection
    @property
    def const(self):
        return not self.den and P.is_const(self.num)

    def cval(self):
        return P.constval(self.num)

    def atoms(self):
        a = P.atoms_of(self.num)
        for f, _ in self.den:
            a |= C.factors[f].atoms
        return a

    def __repr__(self):
        if self.const:
            return 'S(%s)' % (float(self.cval()),)
        return 'S<%s>' % C.show(self)

    __hash__ = None

    # numpy asks for these
    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def item(self, *a):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, t, *a, **k):
        return cast_scalar(self, t)

    def any(self, *a, **k):
        return bool(self)

    def all(self, *a, **k):
        return bool(self)

    def sum(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def reshape(self, *a, **k):
        return np.array(self, dtype=object).reshape(*a, **k)

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        r = C.add(self, o)
        if (self.nn or o.nn) and r is not self and r is not o and \
                self.isnn() and o.isnn():
            r.nn = True
        return r

    __radd__ = __add__

    def __neg__(self):
        return S(P.neg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        return C.add(self, -o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return C.add(o, -self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return o
            sg = C.sign(self)
            return math.nan if sg == 0 else sg * o
        r = C.mul(self, o)
        if self is o or (self.isnn() and o.isnn()) or \
                (self.num == o.num and self.den == o.den):
            r.nn = True
        return r

    def isnn(self):
        return self.nn or (self.const and self.cval() >= 0)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o if o != o else lift(0)
        r = C.div(self, o)
        if self.nn and o.isnn() and isinstance(r, S) and r is not self:
            r.nn = True
        return r

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return o
            sg = C.sign(self)
            return o if sg == 0 else sg * o
        return C.div(o, self)

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, S) and not o.const:
            return C.func('pow', self, o)
        if isinstance(o, S):
            o = o.cval()
        if not is_num(o):
            return NotImplemented
        o = Fraction(to_frac(o))
        if o.denominator == 1:
            return C.ipow(self, int(o))
        if o.denominator == 2:
            r = C.sqrt(self)
            return C.ipow(r, int(o * 2)) if isinstance(r, S) else r
        return C.func('pow', self, lift(o))

    def __rpow__(self, o):
        if self.const and Fraction(self.cval()).denominator == 1:
            return lift(o) ** int(self.cval())
        return C.func('pow', lift(o), self)

    def __abs__(self):
        if self.sq is not None:
            return self
        return -self if C.sign(self) < 0 else self

    def __mod__(self, o):
        o = lift(o)
        return C.mod(self, o)

    def __rmod__(self, o):
        return C.mod(lift(o), self)

    def __floordiv__(self, o):
        return lift(C.floor(self / lift(o)))

    def __rfloordiv__(self, o):
        return lift(C.floor(lift(o) / self))

    def __floor__(self):
        return C.floor(self)

    def __ceil__(self):
        return -C.floor(-self)

    def __trunc__(self):
        return C.trunc(self)

    def __round__(self, n=None):
        if n in (None, 0):
            return C.floor(self + Fraction(1, 2))
        k = 10 ** n
        return lift(Fraction(C.floor(self * k + Fraction(1, 2)), 1)) / k

    def __int__(self):
        return C.trunc(self)

    def __index__(self):
        if self.const and Fraction(self.cval()).denominator == 1:
            return int(self.cval())
        raise TypeError('symbolic real used as an index')

    def __float__(self):
        if self.const:
            return float(self.cval())
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __bool__(self):
        return C.sign(self) != 0

    # numpy object loops call these
    def sqrt(self):
        return C.sqrt(self)

    def sin(self):
        return C.sincos(self)[1]

    def cos(self):
        return C.sincos(self)[0]

    def tan(self):
        c, s = C.sincos(self)
        return s / c

    def arctan2(self, o):
        return C.atan2(self, lift(o))

    def arccos(self):
        return C.arccos(self)

    def arcsin(self):
        return C.arcsin(self)

    def arctan(self):
        return C.atan2(self, lift(1))

    def exp(self):
        return C.func('exp', self)

    def log(self):
        return C.func('log', self)

    def log10(self):
        return C.func('log', self) / C.func('log', lift(10))

    def floor(self):
        return lift(C.floor(self))

    def ceil(self):
        return lift(-C.floor(-self))

    def rint(self):
        return lift(C.floor(self + Fraction(1, 2)))

    def trunc(self):
        return lift(C.trunc(self))

    def square(self):
        return self * self

    def deg2rad(self):
        return self * Fraction(math.pi) / 180

    def rad2deg(self):
        return self * 180 / Fraction(math.pi)

    radians = deg2rad
    degrees = rad2deg

    def isfinite(self):
        return True

    # -- comparison
    def _cmp(self, o, rel):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return rel == '!='
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0,
                    '==': False, '!=': True}[rel]
        return C.compare(self, o, rel)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')


def cast_scalar(x, t):
    t = np.dtype(t) if not isinstance(t, np.dtype) else t
    if t.kind in 'iu':
        return int(x)
    if t.kind == 'b':
        return bool(x)
    return x


class Factor:
    __slots__ = ('poly', 'key', 'atoms')

    def __init__(self, p):
        self.poly = p
        self.key = P.key(p)
        self.atoms = P.atoms_of(p)


ALLSIGNS = frozenset((-1, 0, 1))


class Ctx:
    """State of one symbolic path."""

    def __init__(self, prefix=(), branch_timeout=2.0, max_decisions=400):
        self.names = []           # atom -> name
        self.zv = []              # atom -> z3 variable
        self.rules = {}
        self.defs = {}            # atom -> [(z3, atoms)]
        self.path = []            # [(z3, atoms)]
        self.factors = []
        self.fkey = {}
        self.signs = {}           # primitive poly key -> frozenset of signs
        self.bounds = {}          # key of primitive poly without constant -> [lo, hi]
        self.sqrt_atoms = set()
        self.sqrt_memo = {}
        self.half_angles = {}     # atom of an angle in [-pi/2, pi/2] -> (cos, sin) * positive
        self.trig_memo = {}       # monomial-with-denominator -> (c, s)
        self.func_memo = {}
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []         # new prefixes discovered
        self.branch_timeout = branch_timeout
        self.max_decisions = max_decisions
        self.unknown_branches = 0
        self.inputs = []          # (name, S, kind, info)
        self.draws = []
        self.floor_memo = {}
        self.z3cache = {}
        self.models = []
        self.assumed = []
        self.nonneg_atoms = set()
        self.conc_trig = {}

    # ---- atoms
    def new_atom(self, name, positive=None):
        i = len(self.names)
        self.names.append(name)
        self.zv.append(zvar(i))
        self.defs[i] = []
        return i

    def atomS(self, i):
        return S(P.atom(i))

    def define(self, i, cond):
        """cond: SBool that defines atom i (always included with it)."""
        self.defs[i].append((cond, frozenset(cond.ats)))

    def assume(self, cond):
        """Add a constraint to the path (harness assumption / stub contract)."""
        cond = as_bool(cond)
        if cond is TRUE:
            return
        if self.decide_known(cond) is False:
            raise Infeasible()
        self.learn(cond, True)
        self.path.append((cond, frozenset(cond.ats)))
        self.assumed.append(cond)

    def show(self, s):
        def pp(p):
            out = []
            for m, c in list(p.items())[:12]:
                out.append('%s%s' % (float(c) if not isinstance(c, int) else c, ''.join(
                    '*%s%s' % (self.names[a], '^%d' % e if e > 1 else '')
                    for a, e in m)))
            if len(p) > 12:
                out.append('...(%d terms)' % len(p))
            return ' + '.join(out) or '0'
        t = pp(s.num)
        if s.den:
            t = '(%s)/(%s)' % (t, ' * '.join('(%s)^%d' % (pp(self.factors[f].poly), e)
                                            for f, e in s.den))
        return t

    # ---- z3 conversion
    def z_poly(self, p):
        return zpoly(p)

    # ---- factors of denominators
    def factor(self, p):
        k = P.key(p)
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(Factor(p))
            self.fkey[k] = f
        return f

    def denpoly(self, den):
        p = {(): 1}
        for f, e in den:
            for _ in range(e):
                p = P.mul(p, self.factors[f].poly, self.rules)
        return p

    def norm(self, num, den):
        """Cancel what can be cancelled cheaply; den is {factor: exp}."""
        if not num:
            return S({})
        if not den:
            return S(num)
        changed = True
        while changed:
            changed = False
            for f in list(den):
                e = den[f]
                if not e:
                    del den[f]
                    continue
                fp = self.factors[f].poly
                # 1/s = s/p for a ruled atom s with s**2 = p
                if len(fp) == 1:
                    (m, c), = fp.items()
                    a = m[0][0]
                    if a in self.rules:
                        del den[f]
                        if e % 2:
                            num = P.mul(num, P.atom(a), self.rules)
                            e += 1
                        num, den = self._push_den(num, den, self.rules[a], e // 2)
                        if not num:
                            return S({})
                        changed = True
                        break
                    k = min(dict(mm).get(a, 0) for mm in num)
                    k = min(k, e)
                    if k:
                        num = P.div_mono(num, ((a, k),))
                        den[f] -= k
                        if not den[f]:
                            del den[f]
                        changed = True
                elif len(num) <= 3000:
                    while den.get(f):
                        q = P.exact_div(num, fp, 1500)
                        if q is None:
                            break
                        num = q
                        changed = True
                        den[f] -= 1
                    if f in den and not den[f]:
                        del den[f]
        return S(num, tuple(sorted(den.items())))

    def _push_den(self, num, den, p, e):
        """num/den * 1/p**e with p split into content, monomial, rest."""
        den = dict(den)
        k, p = P.primitive(p)
        num = P.scale(num, Fraction(1) / (Fraction(k) ** e))
        cm = P.common_mono(p)
        if cm:
            p = P.div_mono(p, cm)
            for a, x in cm:
                f = self.factor(P.atom(a))
                den[f] = den.get(f, 0) + x * e
        if not P.is_const(p):
            k, p = P.primitive(p)
            num = P.scale(num, Fraction(1) / (Fraction(k) ** e))
            f = self.factor(p)
            den[f] = den.get(f, 0) + e
        else:
            num = P.scale(num, Fraction(1) / (Fraction(P.constval(p)) ** e))
        return num, den

    # ---- arithmetic
    def add(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            n = P.add(a.num, b.num)
            if not a.den:
                return S(n)
            return self.norm(n, dict(a.den))
        da, db = dict(a.den), dict(b.den)
        den = dict(da)
        for f, e in db.items():
            den[f] = max(den.get(f, 0), e)
        na, nb = a.num, b.num
        for f, e in den.items():
            fp = self.factors[f].poly
            for _ in range(e - da.get(f, 0)):
                na = P.mul(na, fp, self.rules)
            for _ in range(e - db.get(f, 0)):
                nb = P.mul(nb, fp, self.rules)
        return self.norm(P.add(na, nb), den)

    def mul(self, a, b):
        if not a.num or not b.num:
            return S({})
        n = P.mul(a.num, b.num, self.rules)
        if not a.den and not b.den:
            return S(n)
        den = dict(a.den)
        for f, e in b.den:
            den[f] = den.get(f, 0) + e
        return self.norm(n, den)

    def ipow(self, a, n):
        if n < 0:
            return self.div(lift(1), self.ipow(a, -n))
        r = lift(1)
        for _ in range(n):
            r = r * a
        return r

    def div(self, a, b):
        if b.const:
            v = b.cval()
            if v == 0:
                sg = self.sign(a)
                return math.nan if sg == 0 else sg * math.inf
            return S(P.scale(a.num, Fraction(1) / v), a.den)
        if self.sign_zero(b):
            sg = self.sign(a)
            return math.nan if sg == 0 else sg * math.inf
        return self.div_nz(a, b)

    def div_nz(self, a, b):
        """a/b where b is known to be nonzero."""
        num = a.num
        den = dict(a.den)
        for f, e in b.den:
            take = min(den.get(f, 0), e)
            if take:
                den[f] -= take
                if not den[f]:
                    del den[f]
            for _ in range(e - take):
                num = P.mul(num, self.factors[f].poly, self.rules)
        num, den = self._push_den(num, den, b.num, 1)
        return self.norm(num, den)

    # ---- comparison
    def diffpoly(self, a, b):
        """Polynomial with the same sign (up to odd positive) as a - b."""
        d = self.add(a, -b)
        p = d.num
        for f, e in d.den:
            if e % 2:
                fp = self.factors[f].poly
                sg = self.known(fp)
                if sg == {1}:
                    continue
                if sg == {-1}:
                    p = P.neg(p)
                    continue
                p = P.mul(p, fp, self.rules)
        return p

    def compare(self, a, b, rel):
        if b.const and a.sq is not None and not a.const:
            v = b.cval()
            if v < 0:
                return TRUE if rel in ('>', '>=', '!=') else FALSE
            return self.compare(a.sq, S(P.const(v * v)), rel)
        if a.const and b.sq is not None and not b.const:
            v = a.cval()
            if v < 0:
                return TRUE if rel in ('<', '<=', '!=') else FALSE
            return self.compare(S(P.const(v * v)), b.sq, rel)
        p = self.diffpoly(a, b)
        return self.rel0(p, rel)

    def rel0(self, p, rel):
        if P.is_const(p):
            v = P.constval(p)
            r = {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0,
                 '>': v > 0, '>=': v >= 0}[rel]
            return TRUE if r else FALSE
        k, q = P.primitive(p)
        if k < 0:
            rel = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(rel, rel)
        if len(q) <= 2:
            # a * sqrt(r) + c  against 0  is  r against (c/a)**2
            for m, co in q.items():
                if m and len(m) == 1 and m[0][1] == 1 and m[0][0] in self.sqrt_atoms:
                    rest = [v for n, v in q.items() if n != m]
                    if len(rest) == len(q) - 1 and (not rest or () in q):
                        t = -Fraction(rest[0]) / co if rest else Fraction(0)
                        rl = rel if co > 0 else {'<': '>', '<=': '>=', '>': '<',
                                                 '>=': '<='}.get(rel, rel)
                        if t < 0:
                            return TRUE if rl in ('>', '>=', '!=') else FALSE
                        if t > 0 or self.known(self.rules[m[0][0]]) == {1}:
                            return self.rel0(P.sub(self.rules[m[0][0]], P.const(t * t)), rl)
        if len(q) == 2 and self.half_angles:
            r = self.compare_angles(q, rel)
            if r is not None:
                return r
        return SBool(None, (q, rel), frozenset(P.atoms_of(q)))

    def compare_angles(self, q, rel):
        """c * (t1 - t2) against 0 for angles in [-pi/2, pi/2] that cannot differ by pi: sign of
        sin(t1 - t2)."""
        (m1, c1), (m2, c2) = q.items()
        if c1 != -c2 or not all(len(m) == 1 and m[0][1] == 1 and m[0][0] in self.half_angles
                                for m in (m1, m2)):
            return None
        a, b = self.half_angles[m1[0][0]], self.half_angles[m2[0][0]]
        if a[2] and b[2]:
            return None
        for t in (a, b):
            if not t[2]:
                if not t[3]:
                    ok = self.possible(~self.compare(t[0], lift(0), '>')) == 'unsat'
                    t[3].append(ok)
                if not t[3][0]:
                    return None
        return self.compare((a[1] * b[0] - a[0] * b[1]) * c1, lift(0), rel)

    SETS = {'<': frozenset((-1,)), '<=': frozenset((-1, 0)),
            '==': frozenset((0,)), '!=': frozenset((-1, 1)),
            '>': frozenset((1,)), '>=': frozenset((0, 1))}

    def known(self, p):
        """Set of signs polynomial p may take, from cheap knowledge."""
        if P.is_const(p):
            v = P.constval(p)
            return {(v > 0) - (v < 0)}
        k, q = P.primitive(p)
        s = self.signs.get(P.key(q))
        s = set(ALLSIGNS if s is None else s)
        if len(s) > 1:
            # every term a known-nonnegative monomial?
            pos = neg = True
            strict = False
            for m, c in q.items():
                sg = self.mono_signs(m)
                if c < 0:
                    sg = {-x for x in sg}
                if -1 in sg:
                    pos = False
                if 1 in sg:
                    neg = False
                if 0 not in sg:
                    strict = True
                if not (pos or neg):
                    break
            if pos:
                s &= {0, 1}
            if neg:
                s &= {-1, 0}
            if (pos or neg) and strict:
                s.discard(0)
        if len(s) > 1 and self.bounds:
            s &= self.bound_signs(q)
        if k < 0:
            s = {-x for x in s}
        return s

    def split_const(self, q):
        """q = k * r + c with r primitive and without constant term."""
        c = q.get((), 0)
        if c:
            q = {m: v for m, v in q.items() if m}
        k, r = P.primitive(q)
        return k, r, c

    def bound_signs(self, q):
        k, r, c = self.split_const(q)
        lo = hi = None
        b = self.bounds.get(P.key(r))
        if b is not None:
            lo, hi = b
            if k < 0:
                lo, hi = hi, lo
            lo = None if lo is None else (lo[0] * k + c, lo[1])
            hi = None if hi is None else (hi[0] * k + c, hi[1])
        if (lo is None or lo[0] < 0) and (hi is None or hi[0] > 0) and len(q) <= 40:
            l2, h2 = self.interval(q)
            if l2 is not None and (lo is None or l2 > lo[0]):
                lo = (l2, False)
            if h2 is not None and (hi is None or h2 < hi[0]):
                hi = (h2, False)
        s = set(ALLSIGNS)
        if lo is not None:
            if lo[0] > 0:
                s &= {1}
            elif lo[0] == 0:
                s &= {1} if lo[1] else {0, 1}
        if hi is not None:
            if hi[0] < 0:
                s &= {-1}
            elif hi[0] == 0:
                s &= {-1} if hi[1] else {-1, 0}
        return s

    def interval(self, q):
        """Bounds of q from the bounds of its atoms (None: unbounded)."""
        lo, hi = Fraction(0), Fraction(0)
        for m, co in q.items():
            a, b = Fraction(1), Fraction(1)
            for at, e in m:
                bd = self.bounds.get(((((at, 1),), 1),))
                if bd is None or bd[0] is None or bd[1] is None:
                    return None, None
                x, y = bd[0][0] ** e, bd[1][0] ** e
                if e % 2 == 0:
                    x, y = (Fraction(0) if bd[0][0] <= 0 <= bd[1][0] else min(x, y)), max(x, y)
                c4 = (a * x, a * y, b * x, b * y)
                a, b = min(c4), max(c4)
            a, b = (a * co, b * co) if co > 0 else (b * co, a * co)
            lo += a
            hi += b
        return lo, hi

    def mono_signs(self, m):
        out = {1}
        for a, e in m:
            sa = self.signs.get(((((a, 1),), 1),), ALLSIGNS)
            if e % 2 == 0:
                sa = {abs(x) for x in sa}
            out = {x * y for x in out for y in sa}
        return out

    def learn(self, cond, val):
        if cond.atom is None:
            if cond.op is not None:
                f, args = cond.op
                if f is z3.Not:
                    self.learn(args[0], not val)
                elif (f is z3.And and val) or (f is z3.Or and not val):
                    for x in args:
                        if isinstance(x, SBool):
                            self.learn(x, val)
            return
        q, rel = cond.atom
        st = self.SETS[rel] if val else ALLSIGNS - self.SETS[rel]
        k = P.key(q)
        self.signs[k] = frozenset(self.signs.get(k, ALLSIGNS) & st)
        if st != frozenset((-1, 1)) and len(q) <= 400:
            kk, r, c = self.split_const(q)
            # sign of kk * r + c in st
            t = -Fraction(c) / kk
            lo = (t, 0 not in st) if (st <= {0, 1} if kk > 0 else st <= {0, -1}) else None
            hi = (t, 0 not in st) if (st <= {0, -1} if kk > 0 else st <= {0, 1}) else None
            if lo is not None or hi is not None:
                rk = P.key(r)
                b = self.bounds.get(rk, (None, None))
                if lo is not None and b[0] is not None:
                    lo = max(lo, b[0])
                if hi is not None and b[1] is not None:
                    hi = min((hi[0], not hi[1]), (b[1][0], not b[1][1]))
                    hi = (hi[0], not hi[1])
                self.bounds[rk] = (lo if lo is not None else b[0],
                                   hi if hi is not None else b[1])

    # ---- branching
    def slice(self, ats):
        """Constraints connected to the given atoms, with definitions."""
        seen = set()
        todo = list(ats)
        cons = []
        used = [False] * len(self.path)
        byatom = {}
        for i, (z, a) in enumerate(self.path):
            for x in a:
                byatom.setdefault(x, []).append(i)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for z, at in self.defs[a]:
                cons.append(zof(z))
                todo.extend(at - seen)
            for i in byatom.get(a, ()):
                if not used[i]:
                    used[i] = True
                    cons.append(zof(self.path[i][0]))
                    todo.extend(self.path[i][1] - seen)
        return cons

    def all_constraints(self):
        out = [zof(z) for z, _ in self.path]
        for d in self.defs.values():
            out.extend(zof(z) for z, _ in d)
        return out

    def possible(self, cond, timeout=None):
        """'sat'/'unsat'/'unknown' for path and cond."""
        cons = self.slice(cond.ats) + [cond.z]
        r, _ = solver.check(cons, timeout or self.branch_timeout)
        return r

    def ask(self, cond):
        """Can cond be true / false on this path?  Two of sat/unsat/unknown."""
        cons = self.slice(cond.ats)
        z = cond.z
        got = {}
        if cons:
            allc = z3.And(*cons) if len(cons) > 1 else cons[0]
        else:
            allc = None
        for m in self.models:
            if allc is None or z3.is_true(m.eval(allc, model_completion=True)):
                v = m.eval(z, model_completion=True)
                if z3.is_true(v):
                    got.setdefault(True, m)
                elif z3.is_false(v):
                    got.setdefault(False, m)
                if len(got) == 2:
                    break
        out = []
        for side in (True, False):
            if side in got:
                out.append('sat')
                solver.STATS['model_reuse'] = solver.STATS.get('model_reuse', 0) + 1
                continue
            if side is False and out == ['unsat']:
                out.append('sat')
                continue
            r, m = solver.check(cons + [z if side else z3.Not(z)], self.branch_timeout)
            if r == 'sat' and m is not None:
                got[side] = m
            out.append(r)
        for side in (False, True):
            if side in got:
                m = got[side]
                self.models = [m] + [x for x in self.models if x is not m][:3]
        return out

    def decide_known(self, cond):
        if cond.atom is not None:
            q, rel = cond.atom
            s = self.known(q)
            st = self.SETS[rel]
            if s <= st:
                return True
            if not (s & st):
                return False
        elif cond is TRUE:
            return True
        elif cond is FALSE:
            return False
        elif cond.op is not None:
            f, args = cond.op
            if f is z3.Not:
                r = self.decide_known(args[0])
                return None if r is None else not r
            if f is z3.And or f is z3.Or:
                end = f is z3.Or
                rs = []
                for x in args:
                    r = self.decide_known(x)
                    if r is end:
                        return end
                    rs.append(r)
                if None not in rs:
                    return not end
        return None

    def branch(self, cond):
        k = self.decide_known(cond)
        if k is not None:
            return k
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            forced = d[1]
            d = d[0]
        else:
            if i >= self.max_decisions:
                raise PathLimit('more than %d decisions' % self.max_decisions)
            pos, ng = self.ask(cond)
            if pos == 'unsat':
                d, forced = False, True
            else:
                if ng == 'unsat':
                    d, forced = True, True
                else:
                    if 'unknown' in (pos, ng):
                        self.unknown_branches += 1
                    d, forced = True, False
                    self.pending.append(self.decisions + [(False, False)])
        self.decisions.append((d, forced))
        self.learn(cond, d)
        c = cond if d else ~cond
        if not forced:
            self.path.append((c, frozenset(c.ats)))
        return d

    def provable(self, cond):
        """Is cond implied by the path?  (recorded, so re-runs agree)"""
        k = self.decide_known(cond)
        if k is not None:
            return k
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = (self.possible(~cond) == 'unsat', True)
        self.decisions.append(d)
        if d[0]:
            self.learn(cond, True)
        return d[0]

    def sign_zero(self, a):
        """Is a == 0 on this path (forks)?"""
        return self.branch(self.rel0(a.num, '=='))

    def sign(self, a):
        if a.const:
            v = a.cval()
            return (v > 0) - (v < 0)
        if self.branch(self.compare(a, S({}), '>')):
            return 1
        return -1 if self.branch(self.compare(a, S({}), '<')) else 0

    # ---- nonlinear functions
    def sqrt(self, a):
        a = lift(a)
        if isinstance(a, float):
            return math.sqrt(a) if a >= 0 else math.nan
        if a.nn:
            self.learn(self.compare(a, S({}), '>='), True)
        elif self.branch(self.compare(a, S({}), '<')):
            return math.nan
        if not a.num:
            return a
        if a.const:
            return self.sqrt_(a)
        r = self.sqrt_(a)
        r = S(r.num, r.den)
        r.sq = a
        return r

    def sqrt_(self, a):
        # a = p / d**2
        p = a.num
        d = lift(1)
        for f, e in a.den:
            fp = self.factors[f].poly
            if e % 2:
                p = P.mul(p, fp, self.rules)
            fs = S(fp)
            for _ in range((e + 1) // 2):
                d = d * fs
        r = self.sqrt_poly(p)
        if d.const:
            return r / d
        if self.sign(d) < 0:
            d = -d
        return self.div_nz(r, d)

    def sqrt_poly(self, p):
        """Square root of a nonnegative polynomial."""
        k = Fraction(P.content(p))
        lead = p[P.lead(p)]
        # content = n/d = (n*d)/d^2
        n, m = P.square_part(k.numerator * k.denominator)
        outer = Fraction(n, k.denominator)
        q = P.scale(p, Fraction(m) / k)
        # q = m * primitive part, p = outer^2 * q
        r = P.poly_sqrt(q)
        if r is None and len(q) < 40:
            r = self._sqrt_mod_rules(q)
        if r is not None:
            v = abs(S(r))
            return v * outer
        extra = lift(1)
        cm = P.common_mono(q)
        sq = tuple((a, e - e % 2) for a, e in cm if e > 1)
        if sq:
            q = P.div_mono(q, sq)
            for a, e in sq:
                x = abs(self.atomS(a))
                extra = extra * self.ipow(x, e // 2)
        kq = P.key(q)
        i = self.sqrt_memo.get(kq)
        if i is None:
            i = self.new_atom('sqrt')
            self.sqrt_memo[kq] = i
            self.rules[i] = q
            self.sqrt_atoms.add(i)
            za = self.zv[i]
            self.defs[i].append((z3.And(za >= 0, za * za == self.z_poly(q)),
                                 frozenset(P.atoms_of(q))))
            ks = self.known(q)
            self.signs[((((i, 1),), 1),)] = frozenset((1,)) if ks <= {1} else frozenset((0, 1))
            if not ks <= {1}:
                c = self.rel0(q, '>')
                if self.provable(c):
                    self.signs[((((i, 1),), 1),)] = frozenset((1,))
        return self.atomS(i) * outer * extra

    def _sqrt_mod_rules(self, q):
        """r with r*r == q modulo the rules, for q a rule's image times a square."""
        for a, rule in self.rules.items():
            kr, pr = P.primitive(rule) if rule else (1, {})
            if not pr:
                continue
            d = P.exact_div(q, rule, 60)
            if d is not None:
                r = P.poly_sqrt(d)
                if r is not None:
                    return P.mul(r, P.atom(a), self.rules)
        return None

    def unit_rule(self, i, p):
        """Declare atom_i**2 == p (p over smaller atoms) as a defining rule."""
        self.rules[i] = p
        za = self.zv[i]
        self.defs[i].append((za * za == self.z_poly(p), frozenset(P.atoms_of(p))))

    # ---- trigonometry
    def trig_atom(self, kind, m):
        """(cos, sin) of the monomial `kind` divided by the integer m."""
        key = (kind, m)
        if key in self.trig_memo:
            return self.trig_memo[key]
        # derive from a finer one that exists
        for (k2, m2), (c2, s2) in list(self.trig_memo.items()):
            if k2 == kind and m2 > m and m2 % m == 0:
                r = self.multiple(c2, s2, m2 // m)
                self.trig_memo[key] = r
                return r
        nm = '*'.join(self.names[a] for a, _ in kind)
        ci = self.new_atom('cos(%s/%d)' % (nm, m) if m > 1 else 'cos(%s)' % nm)
        si = self.new_atom('sin(%s/%d)' % (nm, m) if m > 1 else 'sin(%s)' % nm)
        self.unit_rule(si, P.sub({(): 1}, {((ci, 2),): 1}))
        c, s = self.atomS(ci), self.atomS(si)
        self.defs[ci].append((TRUE, frozenset((si,))))
        th = S({kind: 1}) / m
        self.link_angle(th, c, s, ci, si)
        self.trig_memo[key] = (c, s)
        # tie to coarser ones that already exist
        for (k2, m2), (c2, s2) in list(self.trig_memo.items()):
            if k2 == kind and m2 < m and m % m2 == 0:
                cc, ss = self.multiple(c, s, m // m2)
                for i, cond in ((ci, self.compare(cc, c2, '==')),
                                (si, self.compare(ss, s2, '=='))):
                    self.defs[i].append((cond, frozenset(cond.ats)))
        return c, s

    def link_angle(self, th, c, s, ci, si):
        """Quadrant lemmas tying (c, s) to the numeric value of th."""
        h = lift(PI) / 2

        def cond(a, rel, b):
            return self.compare(a, b, rel)

        def imp(a, b):
            return b_implies(a, b)
        both = lambda x, y: x & y
        zero = lift(0)
        lem = [
            imp(both(cond(th, '>', zero), cond(th, '<', 2 * h)), cond(s, '>', zero)),
            imp(both(cond(th, '>', -2 * h), cond(th, '<', zero)), cond(s, '<', zero)),
            imp(both(cond(th, '>', 2 * h), cond(th, '<', 4 * h)), cond(s, '<', zero)),
            imp(both(cond(th, '>', -h), cond(th, '<', h)), cond(c, '>', zero)),
            imp(both(cond(th, '>', h), cond(th, '<', 3 * h)), cond(c, '<', zero)),
            imp(both(cond(th, '>', -3 * h), cond(th, '<', -h)), cond(c, '<', zero)),
            imp(both(cond(th, '>', 3 * h), cond(th, '<=', 4 * h)), cond(c, '>', zero)),
            imp(cond(th, '==', zero), cond(c, '==', lift(1))),
            # |sin| <= |th|, cos >= 1 - th^2/2
            imp(cond(th, '>=', zero), cond(s, '<=', th)),
            imp(cond(th, '<=', zero), cond(s, '>=', th)),
            cond(c, '>=', 1 - th * th / 2),
        ]
        for l in lem:
            self.defs[ci].append((l, frozenset(l.ats)))

    def multiple(self, c, s, n):
        if n < 0:
            c, s = self.multiple(c, s, -n)
            return c, -s
        rc, rs = lift(1), lift(0)
        for _ in range(n):
            rc, rs = rc * c - rs * s, rs * c + rc * s
        return rc, rs

    def conc_sincos(self, v):
        """cos, sin of a rational constant."""
        x = float(v)
        q = x / (math.pi / 2)
        n = round(q)
        if abs(q - n) < 1e-12 * max(1, abs(q)):
            return [(1, 0), (0, 1), (-1, 0), (0, -1)][n % 4]
        q6 = x / (math.pi / 6)
        n6 = round(q6)
        if abs(q6 - n6) < 1e-12 * max(1, abs(q6)):
            r3 = self.sqrt(lift(3)) / 2
            h = lift(Fraction(1, 2))
            tab = [(1, 0), (r3, h), (h, r3), (0, 1), (-h, r3), (-r3, h),
                   (-1, 0), (-r3, -h), (-h, -r3), (0, -1), (h, -r3), (r3, -h)]
            return tab[n6 % 12]
        q4 = x / (math.pi / 4)
        n4 = round(q4)
        if abs(q4 - n4) < 1e-12 * max(1, abs(q4)):
            r2 = self.sqrt(lift(2)) / 2
            tab = [(1, 0), (r2, r2), (0, 1), (-r2, r2), (-1, 0), (-r2, -r2),
                   (0, -1), (r2, -r2)]
            return tab[n4 % 8]
        k = Fraction(v)
        neg = k < 0
        k = abs(k)
        if k not in self.conc_trig:
            ci = self.new_atom('cos(%.6g)' % float(k))
            si = self.new_atom('sin(%.6g)' % float(k))
            self.unit_rule(si, P.sub({(): 1}, {((ci, 2),): 1}))
            eps = Fraction(1, 10 ** 14)
            for i, val in ((ci, math.cos(float(k))), (si, math.sin(float(k)))):
                f = Fraction(val)
                a = self.atomS(i)
                for cnd in (self.compare(a, lift(f - eps), '>='),
                            self.compare(a, lift(f + eps), '<=')):
                    self.defs[i].append((cnd, frozenset((ci, si))))
                if abs(val) > 1e-13:
                    self.signs[((((i, 1),), 1),)] = frozenset((1 if val > 0 else -1,))
            self.conc_trig[k] = (self.atomS(ci), self.atomS(si))
        c, s = self.conc_trig[k]
        return c, (-s if neg else s)

    def sincos(self, a):
        if isinstance(a, float) or not isinstance(a, S):
            a = lift(a)
            if isinstance(a, float):
                return math.nan, math.nan
        if a.const:
            c, s = self.conc_sincos(a.cval())
            return lift(c), lift(s)
        if a.den:
            # opaque angle
            i = self.named_value('angle', a)
            a = self.atomS(i)
        rc, rs = lift(1), lift(0)
        for m, co in sorted(a.num.items()):
            if m == ():
                c, s = self.conc_sincos(co)
                c, s = lift(c), lift(s)
            else:
                co = Fraction(co)
                if co.denominator > 64 or abs(co.numerator) > 64:
                    # scale folded into an opaque angle
                    i = self.named_value('angle', S({m: P.cnorm(abs(co))}))
                    c, s = self.trig_atom(((i, 1),), 1)
                    if co < 0:
                        s = -s
                else:
                    c, s = self.trig_atom(m, co.denominator)
                    c, s = self.multiple(c, s, co.numerator)
            rc, rs = rc * c - rs * s, rs * c + rc * s
        return rc, rs

    def named_value(self, name, a):
        """An atom equal to a."""
        k = (name, P.key(a.num), a.den)
        if k not in self.func_memo:
            i = self.new_atom(name)
            cnd = self.compare(self.atomS(i), a, '==')
            self.defs[i].append((cnd, frozenset(cnd.ats)))
            self.func_memo[k] = i
        return self.func_memo[k]

    def angle_atom(self, name, c, s, lo, hi, key):
        """Angle atom with given cos and sin, in [lo, hi]."""
        if key in self.func_memo:
            return self.atomS(self.func_memo[key])
        i = self.new_atom(name)
        self.func_memo[key] = i
        th = self.atomS(i)
        self.trig_memo[(((i, 1),), 1)] = (c, s)
        for cnd in (self.compare(th, lo, '>' if name == 'atan2' else '>='),
                    self.compare(th, hi, '<=')):
            self.defs[i].append((cnd, frozenset(cnd.ats)))
        self.link_angle(th, c, s, i, i)
        # converse lemmas
        zero = lift(0)
        h = lift(PI) / 2

        def imp(a, b):
            return b_implies(a, b)
        lem = [imp(self.compare(s, zero, '>'), self.compare(th, zero, '>') & self.compare(th, 2 * h, '<')),
               imp(self.compare(s, zero, '<'), self.compare(th, zero, '<') & self.compare(th, -2 * h, '>')),
               imp(self.compare(c, zero, '>'), self.compare(th, h, '<') & self.compare(th, -h, '>')),
               imp(self.compare(c, zero, '<'), self.compare(th, h, '>') | self.compare(th, -h, '<')),
               imp(self.compare(c, lift(1), '=='), self.compare(th, zero, '==')),
               imp(self.compare(c, lift(-1), '=='), self.compare(th, 2 * h, '==')),
               imp(self.compare(s, lift(1), '=='), self.compare(th, h, '==')),
               imp(self.compare(s, lift(-1), '=='), self.compare(th, -h, '=='))]
        for l in lem:
            self.defs[i].append((l, frozenset(l.ats)))
        return th

    def atan2(self, y, x):
        y, x = lift(y), lift(x)
        if isinstance(x, float) or isinstance(y, float):
            if x != x or y != y:
                return math.nan
            return lift(math.atan2(float(y), float(x)))
        if x.const and y.const:
            a, b = x.cval(), y.cval()
            if not a or not b or not rat_sqrt(a * a + b * b):
                return lift(math.atan2(float(y), float(x)))
        if not y.num:
            return lift(PI) if self.sign(x) < 0 else lift(0)
        r = self.sqrt(x * x + y * y)
        if self.sign_zero(r):
            return lift(0)
        c, s = self.div_nz(x, r), self.div_nz(y, r)
        # atan2(sin t, cos t) with a known angle t
        k = ('atan2', P.key(c.num), c.den, P.key(s.num), s.den)
        t = self.angle_atom('atan2', c, s, -lift(PI), lift(PI), k)
        self.half_angles.setdefault(self.func_memo[k], (x, y, False, []))
        return t

    def arccos(self, x):
        x = lift(x)
        if isinstance(x, float):
            return math.nan
        if x.const:
            v = x.cval()
            if abs(v) > 1:
                return math.nan
            r = rat_sqrt(1 - v * v)
            if not r or not v:
                return lift(math.acos(float(v)))
            return self.angle_atom('acos', x, lift(r), lift(0), lift(PI),
                                   ('acos', P.key(x.num), x.den))
        if self.branch(self.compare(x, lift(1), '>')) or \
                self.branch(self.compare(x, lift(-1), '<')):
            return math.nan
        t = 1 - x * x
        t.nn = True
        s = self.sqrt(t)
        k = ('acos', P.key(x.num), x.den)
        return self.angle_atom('acos', x, s, lift(0), lift(PI), k)

    def arcsin(self, x):
        x = lift(x)
        if isinstance(x, float):
            return math.nan
        if x.const:
            v = x.cval()
            if abs(v) > 1:
                return math.nan
            r = rat_sqrt(1 - v * v)
            if not r or not v:
                return lift(math.asin(float(v)))
            return self.angle_atom('asin', lift(r), x, -lift(PI) / 2, lift(PI) / 2,
                                   ('asin', P.key(x.num), x.den))
        if self.branch(self.compare(x, lift(1), '>')) or \
                self.branch(self.compare(x, lift(-1), '<')):
            return math.nan
        t = 1 - x * x
        t.nn = True
        c = self.sqrt(t)
        k = ('asin', P.key(x.num), x.den)
        t = self.angle_atom('asin', c, x, -lift(PI) / 2, lift(PI) / 2, k)
        self.half_angles.setdefault(self.func_memo[k], (c, x, True, []))
        return t

    # ---- integers
    def floor(self, a):
        """floor(a) as a Python int; forks over the feasible values."""
        if isinstance(a, float):
            return a
        if a.const:
            return math.floor(a.cval())
        k = (P.key(a.num), a.den)
        if k in self.floor_memo:
            return self.floor_memo[k]
        for _ in range(64):
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
                n = d[2]
                cond = self.compare(a, lift(n), '>=') & self.compare(a, lift(n + 1), '<')
                taken = d[0]
                self.decisions.append(d)
                if not d[1]:
                    c = cond if taken else ~cond
                    self.path.append((c, frozenset(cond.ats)))
                if taken:
                    self.floor_memo[k] = n
                    return n
                continue
            n = self.guess_floor(a)
            cond = self.compare(a, lift(n), '>=') & self.compare(a, lift(n + 1), '<')
            r = self.possible(~cond)
            forced = (r == 'unsat')
            if not forced:
                if r == 'unknown':
                    self.unknown_branches += 1
                self.pending.append(self.decisions + [(False, False, n)])
                self.path.append((cond, frozenset(cond.ats)))
            self.decisions.append((True, forced, n))
            self.floor_memo[k] = n
            if i >= self.max_decisions:
                raise PathLimit('decisions')
            return n
        raise PathLimit('floor has more than 64 feasible values')

    def guess_floor(self, a):
        t = self.named_value('val', a)
        cons = self.slice({t})
        r, m = solver.check(cons, self.branch_timeout * 3, want_model=True)
        if r == 'unsat':
            raise Infeasible()
        if r != 'sat':
            raise Unsupported('floor: solver gave no model')
        v = m.eval(self.zv[t], model_completion=True)
        return math.floor(z3_frac(v))

    def trunc(self, a):
        if isinstance(a, float):
            return int(a)
        if a.const:
            return math.trunc(a.cval())
        if self.branch(self.compare(a, lift(0), '<')):
            return -self.floor(-a)
        return self.floor(a)

    def mod(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return math.nan
        if b.const and b.cval() == 0:
            return math.nan
        q = a / b
        return a - lift(self.floor(q)) * b

    # ---- uninterpreted functions
    def func(self, name, *args):
        args = [lift(a) for a in args]
        for a in args:
            if isinstance(a, float):
                if name == 'exp':
                    return math.exp(a) if a < 0 or a != a else a
                return math.nan
        if all(a.const for a in args) and name in ('exp', 'log', 'pow'):
            v = [float(a.cval()) for a in args]
            if name == 'exp':
                return lift(1) if v[0] == 0 else lift(math.exp(v[0]))
            if name == 'log':
                if v[0] <= 0:
                    return -math.inf if v[0] == 0 else math.nan
                return lift(math.log(v[0]))
            return lift(v[0] ** v[1])
        k = (name,) + tuple((P.key(a.num), a.den) for a in args)
        if k in self.func_memo:
            return self.atomS(self.func_memo[k])
        for (k2, j) in self.func_memo.items():
            if k2[0] == name and len(k2) == len(k) and all(
                    not (a - S(dict(b[0]), b[1])).num for a, b in zip(args, k2[1:])):
                self.func_memo[k] = j
                return self.atomS(j)
        if name == 'log' and self.sign(args[0]) <= 0:
            return math.nan
        i = self.new_atom(name)
        self.func_memo[k] = i
        v = self.atomS(i)
        tie = frozenset().union(*[a.atoms() for a in args])
        lem = []
        if name == 'exp':
            a = args[0]
            self.signs[((((i, 1),), 1),)] = frozenset((1,))
            lem = [self.compare(v, lift(0), '>'), self.compare(v, 1 + a, '>=')]
            lem.append(self._iff(self.compare(a, lift(0), '<='),
                                 self.compare(v, lift(1), '<=')))
        elif name == 'log':
            a = args[0]
            lem = [self.compare(v, a - 1, '<='),
                   self._iff(self.compare(a, lift(1), '<='), self.compare(v, lift(0), '<='))]
        elif name == 'pow':
            lem = [b_implies(self.compare(args[0], lift(0), '>'),
                             self.compare(v, lift(0), '>'))]
        for l in lem:
            self.defs[i].append((l, frozenset(l.ats) | tie))
        # monotone between two applications
        if name in ('exp', 'log'):
            for (k2, j) in list(self.func_memo.items()):
                if k2[0] == name and j != i and len(k2) == 2:
                    b = S(dict(k2[1][0]), k2[1][1])
                    for rel in ('<=', '>='):
                        l = self._iff(self.compare(args[0], b, rel),
                                      self.compare(v, self.atomS(j), rel))
                        self.defs[i].append((l, frozenset(l.ats)))
        return v

    def _iff(self, a, b):
        return b_iff(a, b)


def z3_frac(v, digits=25):
    if z3.is_algebraic_value(v):
        v = v.approx(digits)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())
