"""Symbolic exploration of one harness."""
import math
import os
import sys
import time
import traceback
from fractions import Fraction

from . import load, poly as P, solver, sym
from .env import SymEnv
from .solver import z3


class Harness:
    def __init__(self, fn, name=None, tier='quick', timeout=60, max_paths=400,
                 solver_timeout=8.0, branch_timeout=2.0, bounds='', max_decisions=400,
                 witness=2, cvc5=False, must_reach=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.tier = tier
        self.timeout = timeout
        self.max_paths = max_paths
        self.solver_timeout = solver_timeout
        self.branch_timeout = branch_timeout
        self.bounds = bounds or (fn.__doc__ or '').strip()
        self.max_decisions = max_decisions
        self.witness = witness
        self.cvc5 = cvc5
        self.must_reach = must_reach


def registry():
    hs = []

    def harness(fn=None, **kw):
        def deco(f):
            hs.append(Harness(f, **kw))
            return f
        return deco(fn) if fn is not None else deco

    return hs, harness


class Report:
    def __init__(self, h):
        self.h = h
        self.obl = {}        # name -> counts
        self.cands = []
        self.seen_cands = {}
        self.unknown = []
        self.path_no = 0

    def _o(self, name):
        return self.obl.setdefault(name, {'normal_form': 0, 'unsat': 0, 'sat': 0,
                                          'unknown': 0, 'vacuous': 0})

    def check(self, env, name, cond):
        b = env.sym.as_bool(cond)
        if b is None:
            b = env.sym.as_bool(bool(cond))
        o = self._o(name)
        if b is sym.TRUE:
            o['normal_form'] += 1
            return
        if env.C.decide_known(b) is True:
            o['normal_form'] += 1
            return
        self._solve(env, name, ~b, b.ats, o, [])

    def check_eq(self, env, name, a, b):
        o = self._o(name)
        d = a - b
        if not d.num:
            o['normal_form'] += 1
            return
        k = env.C.known(d.num)
        if k == {0}:
            o['normal_form'] += 1
            return
        viol = d != 0
        margins = []
        for m in (Fraction(1, 20), Fraction(1, 1000)):
            margins.append((d > m) | (d < -m))
        self._solve(env, name, viol, viol.ats, o, margins)

    def check_le(self, env, name, a, b):
        o = self._o(name)
        d = a - b
        viol = d > 0
        if env.C.decide_known(viol) is False:
            o['normal_form'] += 1
            return
        margins = [d > m for m in (Fraction(1, 20), Fraction(1, 1000))]
        self._solve(env, name, viol, viol.ats, o, margins)

    def _solve(self, env, name, viol, ats, o, margins):
        c = env.C
        t = self.h.solver_timeout
        if self.seen_cands.get(name, 0) >= 10:
            o['sat'] += 0
            o.setdefault('skipped_after_violation', 0)
            o['skipped_after_violation'] += 1
            return
        r, m = solver.check(c.slice(ats) + [viol.z], t, use_cvc5=self.h.cvc5)
        if r == 'sat':
            # the slice assumes that the rest of the path is satisfiable
            r2, m = solver.check(self.full(env, [viol.z]), t)
            if r2 != 'sat':
                r3, m = solver.check(self.full(env, []), t)
                if r3 == 'unsat':
                    raise sym.Infeasible()
                r = r2
        o[r] += 1
        if r == 'unsat':
            return
        if r == 'sat':
            self.seen_cands[name] = self.seen_cands.get(name, 0) + 1
            if self.add_candidates(env, name, viol, margins):
                self.seen_cands[name] += 3      # differs by more than rounding
        else:
            if solver.SLOW:
                print('UNKNOWN', name, str(viol.z)[:1500], '\nPATH',
                      '\n'.join(str(sym.zof(z))[:400] for z, _ in c.path),
                      '\nNAMES', dict(enumerate(c.names)) if isinstance(c.names, list) else c.names,
                      file=sys.stderr)
            self.unknown.append({'check': name, 'why': 'solver unknown',
                                 'values': self.path_model(env)})

    # ---- models
    def full(self, env, extra):
        return env.C.all_constraints() + list(extra)

    def path_model(self, env, margins=(Fraction(1, 64), Fraction(1, 10 ** 4))):
        """A model well inside the path (no decision hangs on rounding), or None."""
        c = env.C
        for mg in margins:
            try:
                inner = [interior(z, mg) for z, _ in c.path]
            except Boundary:
                return None
            r, m = solver.check(self.full(env, inner), 3.0)
            if r == 'sat':
                return self.extract(env, m)
        return None

    def add_candidates(self, env, name, viol, margins):
        tried = []
        done = False
        for mg in list(margins) + [viol]:
            r, m = solver.check(self.full(env, [mg.z]), self.h.solver_timeout)
            if r != 'sat':
                continue
            raw = self.extract(env, m)
            nice = self.nice(env, mg, m)
            if nice is not None:
                self.cands.append(dict(nice, check=name))
            self.cands.append(dict(raw, check=name))
            done = True
            if mg is not viol:
                return True
        if not done:
            self.unknown.append({'check': name, 'why': 'violation satisfiable on the '
                                 'slice, no model of the whole path', 'values': None})

    def nice(self, env, viol, m):
        """Prefer small dyadic inputs: they survive the conversion to float."""
        c = env.C
        base = self.full(env, [viol.z])
        fixed = []
        t_end = time.time() + 6
        vars_ = []
        for name, v, kind in c.inputs:
            if kind == 'real':
                vars_.append(v)
        for kind, shape, arr in c.draws:
            if kind not in ('choice', 'randint'):
                vars_.extend(x for x in arr.flat if isinstance(x, sym.S))
        got = False
        for v in vars_:
            if time.time() > t_end:
                break
            zv = c.z_poly(v.num)
            val = sym.z3_frac(m.eval(zv, model_completion=True))
            for den in (1, 8, 256):
                q = Fraction(round(val * den), den)
                cand = fixed + [zv == z3.RealVal(str(q))]
                r, m2 = solver.check(base + cand, 0.6)
                if r == 'sat':
                    fixed = cand
                    m = m2
                    got = True
                    break
        return self.extract(env, m) if got else None

    def extract(self, env, m):
        c = env.C

        def ev(s):
            if not isinstance(s, sym.S):
                return s
            if s.const:
                return Fraction(s.cval())
            num = sym.z3_frac(m.eval(c.z_poly(s.num), model_completion=True))
            for f, e in s.den:
                num /= sym.z3_frac(m.eval(c.z_poly(c.factors[f].poly),
                                          model_completion=True)) ** e
            return num
        vals = {}
        for name, v, kind in c.inputs:
            if kind == 'real':
                vals[name] = float(ev(v))
            elif kind == 'angle':
                th, cs, sn = v
                t = float(ev(th))
                a = math.atan2(float(ev(sn)), float(ev(cs)))
                vals[name] = a + 2 * math.pi * round((t - a) / (2 * math.pi))
                if abs(vals[name] - t) < 1e-6:
                    vals[name] = t
            elif kind == 'func':
                vals[name] = [[[float(ev(a)) for a in args], float(ev(x))]
                              for args, x in v]
        draws = []
        for kind, shape, arr in c.draws:
            import numpy as np
            flat = [float(ev(x)) for x in (arr.flat if isinstance(arr, np.ndarray) else [arr])]
            draws.append([kind, list(shape), flat])
        return {'values': vals, 'draws': draws}


COVER = int(os.environ.get('SYMX_COVER', '0'))


def cover(h, paths, res):
    """Development aid: random inputs must each lie on an explored path."""
    import random
    rnd = random.Random(1)
    hit = miss = 0
    for _ in range(COVER):
        c, _cons = rnd.choice(paths)
        vs = []
        for name, v, kind in c.inputs:
            if kind == 'real':
                vs.append(c.z_poly(v.num))
            elif kind == 'angle':
                vs.append(c.z_poly(v[0].num))
        base = []
        for a in c.assumed:
            base.append(a.z)
        for i in range(len(c.names)):
            if i in [x for n, v, k in c.inputs if k == 'real' for x in v.atoms()]:
                base += [sym.zof(z) for z, _ in c.defs[i]]
        fixed = []
        rnd.shuffle(vs)
        for v in vs:
            for _t in range(4):
                q = Fraction(rnd.choice([rnd.randint(-3, 3), rnd.randint(-40, 40)]),
                             rnd.choice([1, 1, 2, 4, 7]))
                cand = fixed + [v == z3.RealVal(str(q))]
                r, m = solver.check(base + cand, 1)
                if r == 'sat':
                    fixed = cand
                    break
        ok = False
        for c2, cons in paths:
            r, m = solver.check(cons + fixed, 3)
            if r != 'unsat':
                ok = True
                break
        if ok:
            hit += 1
        else:
            miss += 1
            print('COVER MISS', h.name, fixed, flush=True)
    print('COVER', h.name, hit, 'covered', miss, 'missed', flush=True)


class Boundary(Exception):
    """The path lies on a measure-zero set."""


def interior(b, mg, neg=False):
    """z3 form of b (or of not b) with a margin on every inequality."""
    if not isinstance(b, sym.SBool):
        return z3.Not(b) if neg else b
    if b.atom is not None:
        q, rel = b.atom
        if neg:
            rel = sym.NEG[rel]
        zq = sym.zpoly(q)
        m = z3.RealVal(str(mg))
        if rel in ('<', '<='):
            return zq <= -m
        if rel in ('>', '>='):
            return zq >= m
        if rel == '!=':
            return z3.Or(zq <= -m, zq >= m)
        return zq == 0
    if b.op is None:
        return z3.Not(b.z) if neg else b.z
    f, args = b.op
    if f is z3.Not:
        return interior(args[0], mg, not neg)
    if f is z3.And or f is z3.Or:
        g = f if not neg else (z3.Or if f is z3.And else z3.And)
        return g(*[interior(x, mg, neg) for x in args])
    return z3.Not(b.z) if neg else b.z


def trace_functions(fn):
    """Names of the marxs functions executed by fn()."""
    seen = set()
    root = os.path.join(load.REPO, 'marxs') + os.sep

    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(root):
                seen.add('%s:%s' % (f[len(load.REPO) + 1:], frame.f_code.co_qualname))
    sys.setprofile(prof)
    try:
        fn()
    finally:
        sys.setprofile(None)
    return seen


def run(h, deadline):
    t0 = time.time()
    rep = Report(h)
    res = {'harness': h.name, 'paths': 0, 'infeasible': 0, 'skipped': 0,
           'decisions': 0, 'exceptions': [], 'functions': [], 'witnesses': [],
           'unreached': 0, 'unknown_branches': 0, 'truncated': None,
           'max_poly': 0, 'notes': []}
    stack = [[]]
    funcs = set()
    allpaths = []
    end = min(deadline, t0 + h.timeout)
    while stack:
        if time.time() > end:
            res['truncated'] = 'time limit with %d paths left' % len(stack)
            break
        if res['paths'] + res['skipped'] >= h.max_paths:
            res['truncated'] = 'path limit with %d paths left' % len(stack)
            break
        prefix = stack.pop()
        c = sym.Ctx(prefix, h.branch_timeout, h.max_decisions)
        c.choice_log = []
        sym.set_ctx(c)
        env = SymEnv(c, rep)
        rep.path_no += 1
        status = 'done'
        try:
            if res['paths'] < 6:
                box = []
                funcs |= trace_functions(lambda: h.fn(env))
            else:
                h.fn(env)
            res['paths'] += 1
        except sym.Infeasible:
            status = 'infeasible'
            res['infeasible'] += 1
        except sym.Skip:
            status = 'skip'
            res['skipped'] += 1
        except sym.PathLimit as e:
            status = 'limit'
            res['notes'].append('path limit: %s' % e)
            rep.unknown.append({'check': '(path)', 'why': str(e), 'values': None})
        except (sym.Unsupported, P.Budget) as e:
            status = 'unsupported'
            rep.unknown.append({'check': '(path)', 'why': '%s: %s @ %s' % (
                type(e).__name__, e, where(e)), 'values': rep.path_model(env)})
        except Exception as e:
            status = 'exception'
            r, m = solver.check(c.all_constraints(), 6.0)
            if r == 'unsat':
                res['infeasible'] += 1
                status = 'infeasible'
            else:
                vals = rep.extract(env, m) if r == 'sat' else None
                d = {'exc': '%s: %s' % (type(e).__name__, str(e)[:300]),
                     'where': where(e), 'case': vals,
                     'trace': traceback.format_exc()[-1800:]}
                res['exceptions'].append(d)
                if len(res['exceptions']) >= 12:
                    res['truncated'] = 'too many exceptions'
                    stack.extend(c.pending)
                    break
        finally:
            sys.setprofile(None)
            env.unpatch()
        res['decisions'] += len(c.decisions)
        res['unknown_branches'] += c.unknown_branches
        if status == 'done' and len(res['witnesses']) < h.witness:
            wit = rep.path_model(env)
            if wit is not None:
                res['witnesses'].append(wit)
        stack.extend(c.pending)
        if COVER and status in ('done', 'skip'):
            allpaths.append((c, c.all_constraints()))
    if COVER:
        cover(h, allpaths, res)
    res['functions'] = sorted(funcs)
    res['obligations'] = rep.obl
    res['candidates'] = rep.cands
    res['unknown'] = rep.unknown
    res['stats'] = dict(solver.STATS)
    res['wall'] = time.time() - t0
    return res


def where(e):
    tb = e.__traceback__
    out = ''
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(load.REPO) or '/checks/' in f.co_filename:
            out = '%s:%d' % (os.path.relpath(f.co_filename, load.REPO), tb.tb_lineno)
        tb = tb.tb_next
    return out
