"""Sparse multivariate polynomials over the rationals, with square rules.

A polynomial is a dict ``{monomial: coefficient}``; a monomial is a tuple of
``(atom, exponent)`` sorted by atom number; coefficients are ``int`` when they
are integers and ``Fraction`` otherwise.

``rules`` maps an atom ``a`` to a polynomial ``p`` over atoms with smaller
numbers and means ``a**2 == p`` (square roots, sine/cosine pairs, components of
unit vectors).  Because each rule's leading term is a power of a different
atom, rewriting with all of them gives a unique normal form modulo the ideal
they generate: two terms that normalise alike are equal in every model.
"""
from fractions import Fraction
from math import gcd, isqrt


class Budget(Exception):
    """A polynomial became too large to carry on with."""


MAXTERMS = 60000


def cnorm(c):
    if type(c) is int:
        return c
    if c.denominator == 1:
        return c.numerator
    return c


def const(c):
    return {(): c} if c else {}


def atom(a):
    return {((a, 1),): 1}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def constval(p):
    return p.get((), 0)


def add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = cnorm(s)
            else:
                del r[m]
    return r


def scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: cnorm(c * k) for m, c in p.items()}


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    i = j = 0
    out = []
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, b = m[i], n[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    if i < lm:
        out.extend(m[i:])
    elif j < ln:
        out.extend(n[j:])
    return tuple(out)


def raw_mul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > 4 * MAXTERMS:
        raise Budget('polynomial product of %d x %d terms' % (len(p), len(q)))
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            s = r.get(k)
            if s is None:
                r[k] = c * d
            else:
                r[k] = s + c * d
    return {m: cnorm(c) for m, c in r.items() if c}


def reduce(p, rules):
    """Normal form of p with respect to the rules a**2 -> rules[a]."""
    if not rules:
        return p
    todo = p
    while True:
        bad = None
        for m in todo:
            for a, e in m:
                if e > 1 and a in rules:
                    if bad is None or a > bad:
                        bad = a
        if bad is None:
            return todo
        # rewrite every power of the largest reducible atom
        out = {}
        powers = [{(): 1}]
        rule = rules[bad]
        parts = {}
        for m, c in todo.items():
            k = 0
            rest = m
            for idx, (a, e) in enumerate(m):
                if a == bad and e > 1:
                    k = e // 2
                    rest = m[:idx] + (((a, 1),) if e % 2 else ()) + m[idx + 1:]
                    break
            if k == 0:
                s = out.get(m)
                out[m] = c if s is None else s + c
            else:
                d = parts.setdefault(k, {})
                s = d.get(rest)
                d[rest] = c if s is None else s + c
        out = {m: cnorm(c) for m, c in out.items() if c}
        for k, d in parts.items():
            while len(powers) <= k:
                powers.append(raw_mul(powers[-1], rule))
            out = add(out, raw_mul({m: cnorm(c) for m, c in d.items() if c},
                                   powers[k]))
        if len(out) > MAXTERMS:
            raise Budget('polynomial with %d terms' % len(out))
        todo = out


def mul(p, q, rules):
    if is_const(p):
        return scale(q, constval(p))
    if is_const(q):
        return scale(p, constval(q))
    return reduce(raw_mul(p, q), rules)


def content(p):
    """Positive rational c such that p / c has coprime integer coefficients."""
    g = 0
    l = 1
    for c in p.values():
        if type(c) is int:
            n, d = c, 1
        else:
            n, d = c.numerator, c.denominator
        g = gcd(g, n)
        l = l * d // gcd(l, d)
    # gcd of (numerators * l/d)
    g = 0
    for c in p.values():
        if type(c) is int:
            g = gcd(g, c * l)
        else:
            g = gcd(g, c.numerator * (l // c.denominator))
    return cnorm(Fraction(g, l))


def lead(p):
    """Leading monomial in a lexicographic order (largest atom first)."""
    return max(p, key=_lexkey)


def _lexkey(m):
    # reverse: highest atom number is most significant.
    return tuple(sorted(m, reverse=True))


def primitive(p):
    """p = k * q with q primitive, with positive leading coefficient."""
    k = content(p)
    if p[lead(p)] < 0:
        k = -k
    if k == 1:
        return 1, p
    inv = Fraction(1) / k
    return k, {m: cnorm(c * inv) for m, c in p.items()}


def key(p):
    return tuple(sorted(p.items()))


def common_mono(p):
    """Greatest monomial dividing every term of p."""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        if not g:
            break
        d = dict(m)
        g = {a: min(e, d[a]) for a, e in g.items() if a in d}
    return tuple(sorted(g.items()))


def div_mono(p, mono):
    if not mono:
        return p
    d = dict(mono)
    out = {}
    for m, c in p.items():
        n = []
        for a, e in m:
            e -= d.get(a, 0)
            if e:
                n.append((a, e))
        out[tuple(n)] = c
    return out


def exact_div(p, q, maxsteps=400):
    """p / q as plain polynomials if the division is exact, else None."""
    if not p:
        return {}
    if is_const(q):
        return scale(p, Fraction(1) / constval(q))
    lq = lead(q)
    cq = q[lq]
    dq = dict(lq)
    out = {}
    rest = p
    for _ in range(maxsteps):
        if not rest:
            return out
        lp = lead(rest)
        dp = dict(lp)
        for a, e in dq.items():
            if dp.get(a, 0) < e:
                return None
            dp[a] -= e
        m = tuple(sorted((a, e) for a, e in dp.items() if e))
        c = cnorm(Fraction(rest[lp]) / cq)
        out = add(out, {m: c})
        rest = sub(rest, raw_mul({m: c}, q))
    return None


def perfect_square(n):
    if n < 0:
        return None
    r = isqrt(n)
    return r if r * r == n else None


def square_part(n, limit=2000):
    """n = k*k*m, pulling small square factors out of the integer n > 0."""
    k = 1
    r = perfect_square(n)
    if r is not None:
        return r, 1
    f = 2
    m = n
    while f < limit and f * f <= m:
        while m % (f * f) == 0:
            m //= f * f
            k *= f
        f += 1 if f == 2 else 2
    r = perfect_square(m)
    if r is not None:
        return k * r, 1
    return k, m


def poly_sqrt(p):
    """A polynomial r with r*r == p (as plain polynomials), or None."""
    if not p:
        return {}
    if is_const(p):
        c = Fraction(constval(p))
        if c < 0:
            return None
        a, b = perfect_square(c.numerator), perfect_square(c.denominator)
        if a is None or b is None:
            return None
        return const(cnorm(Fraction(a, b)))
    if len(p) > 60:
        return None
    r = {}
    rest = p
    first = None
    for _ in range(30):
        if not rest:
            return r
        lp = lead(rest)
        if first is None:
            mono = []
            for a, e in lp:
                if e % 2:
                    return None
                mono.append((a, e // 2))
            c = Fraction(rest[lp])
            if c < 0:
                return None
            a, b = perfect_square(c.numerator), perfect_square(c.denominator)
            if a is None or b is None:
                return None
            first = (tuple(mono), cnorm(Fraction(a, b)))
            t = {first[0]: first[1]}
        else:
            d = dict(lp)
            for a, e in first[0]:
                if d.get(a, 0) < e:
                    return None
                d[a] -= e
            m = tuple(sorted((a, e) for a, e in d.items() if e))
            t = {m: cnorm(Fraction(rest[lp]) / (2 * first[1]))}
            if _lexkey(m) >= _lexkey(first[0]):
                return None
        # rest -= 2 r t + t^2
        rest = sub(rest, add(scale(raw_mul(r, t), 2), raw_mul(t, t)))
        r = add(r, t)
    return None


def atoms_of(p, acc=None):
    acc = set() if acc is None else acc
    for m in p:
        for a, _ in m:
            acc.add(a)
    return acc
