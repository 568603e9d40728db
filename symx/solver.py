"""Solver access: z3 first (two engines), cvc5 as second opinion on unknown."""
import importlib.util
import os
import sys
import time


def _load(name, where='/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
    """Import one package out of the tooling venv, and nothing else from it."""
    if name in sys.modules:
        return sys.modules[name]
    if importlib.util.find_spec(name) is None:
        sys.path.append(where)
        try:
            return __import__(name)
        finally:
            sys.path.remove(where)
    return __import__(name)


z3 = _load('z3')

SLOW = int(os.environ.get('SYMX_SLOW', '0'))
STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0,
         'z3': 0, 'z3-nlsat': 0, 'cvc5': 0}


def _count(engine, res, dt):
    STATS['queries'] += 1
    STATS[res] += 1
    STATS['time'] += dt
    STATS[engine] += 1


def check(constraints, timeout=4.0, want_model=False, use_cvc5=False):
    """Return ('sat', model) / ('unsat', None) / ('unknown', None)."""
    plan = [('z3-nlsat', min(timeout, 1.5)), ('z3', min(timeout, 2.0))]
    if timeout > 2.0:
        plan += [('z3-nlsat', timeout)]
    if use_cvc5:
        plan += [('cvc5', timeout)]
    for engine, t in plan:
        t0 = time.time()
        if engine == 'cvc5':
            res, model = _cvc5(constraints, t)
        else:
            s = z3.SolverFor('QF_NRA') if engine == 'z3-nlsat' else z3.Solver()
            s.set('timeout', int(t * 1000))
            s.add(*constraints)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
            model = s.model() if res == 'sat' else None
        _count(engine, res, time.time() - t0)
        if SLOW and time.time() - t0 > 0.8:
            print('SLOW %s %s %.1fs %d constraints; last: %s' % (
                engine, res, time.time() - t0, len(constraints), str(constraints[-1])[:SLOW]),
                file=sys.stderr)
        if res != 'unknown':
            return res, model
    return 'unknown', None


def _cvc5(constraints, timeout):
    import subprocess
    s = z3.Solver()
    s.add(*constraints)
    txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--nl-cov',
                            '--tlimit=%d' % int(timeout * 1000)],
                           input=txt, capture_output=True, text=True,
                           timeout=timeout + 5)
    except (OSError, subprocess.SubprocessError):
        return 'unknown', None
    out = p.stdout.strip().splitlines()
    if '(error' in p.stdout or not out:
        return 'unknown', None
    # a cvc5 "sat" carries no z3 model: only its "unsat" is used.
    return ('unsat', None) if out[-1] == 'unsat' else ('unknown', None)
