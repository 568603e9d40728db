"""Run harnesses concretely on the real, unpatched code.

usage: replay.py FILE.json        (one case: exit 1 if the property fails)
       replay.py --batch IN OUT   (many cases)
"""
import importlib
import json
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')


def patch_random(draws, chosen=None, rng=None, env=None):
    """numpy's global generators return the recorded draws, in order (or, with rng, new ones
    that are recorded)."""
    import numpy as np
    q = [list(d) for d in draws]

    def take(kinds, shape=None, gen=None):
        if rng is not None:
            shape = () if shape is None else \
                tuple(shape) if isinstance(shape, (tuple, list)) else (int(shape),)
            a = np.asarray(gen(shape))
            draws.append([kinds[0], list(shape), [float(x) for x in a.flat]])
            return a if shape else float(a)
        if not q:
            raise RuntimeError('replay: no draw left')
        kind, shape, vals = q.pop(0)
        if env is not None:
            env.taken = (env.taken or 0) + 1
        if kind not in kinds:
            raise RuntimeError('replay: draw %s, recorded %s' % (kinds, kind))
        a = np.array(vals, dtype=float).reshape(tuple(shape))
        return a if shape else float(a)

    def flat(s):
        # now and then, all numbers are close to an end of the range
        a = rng.rand(*s)
        k = rng.rand()
        return a * 1e-3 if k < .1 else 1 - a * 1e-3 if k < .2 else a

    def rand(*s):
        return take(('rand',), s, flat)

    def random(size=None):
        return take(('random',), size, flat)

    def uniform(low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * take(('uniform',), size, flat)

    def normal(loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape
        return loc + take(('normal',), size, lambda s: rng.randn(*s)) * scale

    def randn(*s):
        return take(('randn',), s, lambda s: rng.randn(*s))

    def standard_normal(size=None):
        return take(('standard_normal',), size, lambda s: rng.randn(*s))

    def exponential(scale=1.0, size=None):
        if size is None:
            size = np.shape(scale)
        return take(('exponential',), size, lambda s: rng.exponential(size=s)) * scale

    def choice(a, size=None, replace=True, p=None):
        if p is not None:
            orig(len(p), p=np.asarray(p, dtype=float))   # numpy's own validation
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        k = take(('choice',), size, lambda s: rng.choice(len(opts), s, replace, p))
        if chosen is not None:
            chosen.append((np.asarray(k), opts, None if p is None else list(p)))
        if np.ndim(k) == 0:
            return opts[int(k)]
        return np.array([opts[int(i)] for i in k.flat]).reshape(k.shape)

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        k = take(('randint',), size, lambda s: rng.randint(low, high, s))
        return int(k) if np.ndim(k) == 0 else k.astype(int)

    def permutation(x):
        n = x if isinstance(x, (int, np.integer)) else len(x)
        k = take(('shuffle',), n, lambda s: rng.permutation(n)).astype(int)
        return k if isinstance(x, (int, np.integer)) else np.asarray(x)[k]

    def shuffle(x):
        k = take(('shuffle',), len(x), lambda s: rng.permutation(len(x))).astype(int)
        x[:] = x[k].copy() if isinstance(x, np.ndarray) else [x[i] for i in k]

    orig = np.random.RandomState(0).choice
    new = dict(rand=rand, random=random, random_sample=random, uniform=uniform,
               normal=normal, randn=randn, standard_normal=standard_normal,
               exponential=exponential, choice=choice, randint=randint,
               shuffle=shuffle, permutation=permutation)
    old = {n: getattr(np.random, n) for n in new}
    for n, f in new.items():
        setattr(np.random, n, f)
    undo = [(np.random, n, f) for n, f in old.items()]
    gen = np.random.mtrand._rand
    for name, mod in list(sys.modules.items()):     # from numpy.random import rand
        if name.startswith('marxs') and mod is not None:
            for k, v in list(vars(mod).items()):
                if callable(v) and getattr(v, '__self__', None) is gen and \
                        getattr(v, '__name__', '') in new:
                    setattr(mod, k, new[v.__name__])
                    undo.append((mod, k, v))
    return undo


def run_case(case):
    from symx import env as E, load, sym
    mod = importlib.import_module('checks.' + case['module'])
    h = {x.name: x for x in mod.HARNESSES}[case['harness']]
    rescue = case.get('rescue')
    if rescue is not None:
        e = E.RescueEnv(rescue)
    else:
        e = E.ConcEnv(case['values'], case.get('draws', ()))
    import numpy as np
    undo = []
    if not case.get('free_random'):
        for m in getattr(mod, 'NEEDS', ()):
            load.imp(m)
        import numpy as np
        undo = patch_random(e.recorded if rescue is not None else case.get('draws', ()), e.chosen,
                            None if rescue is None else np.random.RandomState(rescue), e)
        if rescue is None:
            e.taken = 0
    res = {'exception': None, 'skipped': False}
    import contextlib
    try:
        with np.errstate(all='ignore'):
            h.fn(e)
    except sym.Skip:
        res['skipped'] = True
    except Exception as ex:
        res['exception'] = ''.join(traceback.format_exception_only(type(ex), ex)).strip()
        res['trace'] = traceback.format_exc()[-1500:]
    finally:
        e.unpatch()
        for m, n, f in undo:
            setattr(m, n, f)
    if rescue is not None:
        case.update(values=e.values, draws=e.recorded)
        res['case'] = {k: v for k, v in case.items() if k != 'rescue'}
    res['failed'] = e.failed
    res['passed'] = len(e.passed)
    res['passed_names'] = [n for n, _ in e.passed]
    res['record'] = {k: v for k, v in e.record.items() if isinstance(v, (int, float))}
    return res


def bad_run(r):
    return not r['skipped'] and (r['failed'] or (
        r['exception'] and not r['exception'].startswith('RuntimeError: replay:')))


def nudged(case, seed):
    """The same case, all numbers slightly different."""
    import random
    rnd = random.Random(seed)

    def move(x):
        return x + rnd.uniform(-1, 1) * 1e-7 * (1 + abs(x))
    return dict(case, values={k: v if isinstance(v, list) else move(v)
                              for k, v in case['values'].items()},
                draws=[[kind, shape, [x if kind in ('choice', 'randint', 'shuffle') else
                                      min(max(move(x), 0), 1) if kind in ('rand', 'random', 'uniform')
                                      else move(x) for x in vals]]
                       for kind, shape, vals in case['draws']])


def main(argv):
    if argv[0] == '--rescue':        # MODULE HARNESS RUNS SECONDS OUT
        import time
        end = time.time() + float(argv[4])
        out = []
        for k in range(int(argv[3])):
            if time.time() > end:
                break
            r = run_case({'module': argv[1], 'harness': argv[2], 'rescue': k + 1})
            if bad_run(r):
                # not if it hangs on rounding
                if all(bad_run(run_case(nudged(r['case'], j))) for j in range(4)):
                    out.append(r)
                    break
                r['skipped'] = True
            out.append({'skipped': r['skipped']})
        json.dump(out, open(argv[5], 'w'))
        return 0
    if argv[0] == '--batch':
        cases = json.load(open(argv[1]))
        out = []
        for c in cases:
            out.append(run_case(c))
            json.dump(out, open(argv[2], 'w'))
        json.dump(out, open(argv[2], 'w'))
        return 0
    case = json.load(open(argv[0]))
    r = run_case(case)
    print('harness   ', case['module'], case['harness'])
    print('inputs    ', json.dumps(case['values']))
    if r['exception']:
        print('EXCEPTION ', r['exception'])
        print(r.get('trace', ''))
    for n, w in r['failed']:
        print('FAILED    ', n, w)
    print('passed    ', r['passed'])
    bad = bool(r['failed'] or r['exception'])
    print('property VIOLATED on the real code' if bad else 'no violation')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
