"""Entry point of a check:  python -m symx.main C02 [--thorough] [--only NAME]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def child(modname, idx, deadline, conn, memlimit):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    sys.setrecursionlimit(20000)
    try:
        from symx import worker, solver
        mod = importlib.import_module('checks.' + modname)
        for k in solver.STATS:
            solver.STATS[k] = 0
        r = worker.run(mod.HARNESSES[idx], deadline)
    except BaseException as e:      # reported to the parent
        import traceback
        r = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]}
    conn.send(r)
    conn.close()


def run_all(modname, todo, budget, jobs, memlimit, verbose):
    """Run harnesses in forked children, at most `jobs` at a time."""
    ctx = mp.get_context('fork')
    mod = importlib.import_module('checks.' + modname)
    t_start = time.time()
    hard = t_start + budget
    results = {}
    queue = sorted(todo, key=lambda i: -mod.HARNESSES[i].timeout)
    active = {}
    while queue or active:
        while queue and len(active) < jobs:
            i = queue.pop(0)
            h = mod.HARNESSES[i]
            a, b = ctx.Pipe(False)
            now = time.time()
            p = ctx.Process(target=child, args=(modname, i, hard, b, memlimit))
            p.start()
            b.close()
            active[i] = (p, a, min(now + h.timeout + 45, hard + 30))
        for i, (p, a, end) in list(active.items()):
            h = mod.HARNESSES[i]
            if a.poll(0.02):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {'error': 'worker died'}
                p.join(5)
                if p.is_alive():
                    p.kill()
                del active[i]
                if verbose:
                    r = results[i]
                    print('  %-40s %s' % (h.name, r.get('error') or '%d paths %.1fs %s%s' % (
                        r['paths'], r['wall'], {k: v for k, v in tot(r).items() if v},
                        ' TRUNC ' + r['truncated'] if r['truncated'] else '')), flush=True)
            elif time.time() > end:
                p.kill()
                p.join()
                results[i] = {'error': 'timeout (hard)'}
                del active[i]
                if verbose:
                    print('  %-40s killed' % h.name, flush=True)
            elif not p.is_alive() and not a.poll(0.5):
                results[i] = {'error': 'worker died'}
                del active[i]
    return results


def tot(r):
    t = {'normal_form': 0, 'unsat': 0, 'sat': 0, 'unknown': 0}
    for o in r['obligations'].values():
        for k in t:
            t[k] += o[k]
    t['exc'] = len(r['exceptions'])
    t['inconclusive'] = len(r['unknown'])
    return t


def replay_batch(cases, tmpdir, timeout):
    if not cases:
        return []
    fin = os.path.join(tmpdir, 'in.json')
    fout = os.path.join(tmpdir, 'out.json')
    json.dump(cases, open(fin, 'w'))
    if os.path.exists(fout):
        os.unlink(fout)
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        subprocess.run([sys.executable, os.path.join(HERE, 'symx', 'replay.py'),
                        '--batch', fin, fout], timeout=timeout, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        pass
    try:
        out = json.load(open(fout))
    except (OSError, ValueError):
        out = []
    out += [None] * (len(cases) - len(out))
    return out


def rescue(modname, names, jobs, seconds):
    """Run undecided harnesses on the real code with inputs from their bounds."""
    import tempfile
    res = {}
    with tempfile.TemporaryDirectory() as td:
        queue = list(enumerate(names))
        active = []
        t_end = time.time() + 150
        while queue or active:
            while queue and len(active) < jobs and time.time() < t_end:
                k, n = queue.pop(0)
                out = os.path.join(td, '%d.json' % k)
                p = subprocess.Popen([sys.executable, os.path.join(HERE, 'symx', 'replay.py'),
                                      '--rescue', modname, n, '60', str(seconds), out],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                active.append((n, p, out, time.time() + seconds + 30))
            if time.time() > t_end:
                queue = []
            for x in list(active):
                n, p, out, end = x
                if p.poll() is None and time.time() < end:
                    continue
                if p.poll() is None:
                    p.kill()
                p.wait()
                active.remove(x)
                try:
                    r = json.load(open(out))
                except (OSError, ValueError):
                    r = []
                bad = r[-1] if r and 'case' in r[-1] else None
                res[n] = (bad, sum(1 for v in r if not v['skipped']))
            time.sleep(0.05)
    return res


def known_findings(prop):
    """Lines `KNOWN-FINDING: property=<id> harness=<h> check=<c> | text`."""
    res = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                head, _, text = line.partition('|')
                d = dict(x.split('=', 1) for x in head.split()[1:] if '=' in x)
                res.append((d.get('harness'), d.get('check'), line))
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    prop = a.prop
    evdir = os.path.join(HERE, 'evidence')
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    os.environ['MPLBACKEND'] = 'agg'

    from symx import load
    try:
        load.go_symbolic()
        modname = [f[:-3] for f in os.listdir(os.path.join(HERE, 'checks'))
                   if f.startswith(prop.lower() + '_') and f.endswith('.py')][0]
        mod = importlib.import_module('checks.' + modname)
        if hasattr(mod, 'preload'):
            mod.preload(load.imp)
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s the code under check cannot be imported' % prop)
        return 2
    todo = [i for i, h in enumerate(mod.HARNESSES)
            if (tier == 'thorough' or h.tier == 'quick') and
            (a.only is None or a.only in h.name)]
    budget = 780 if tier == 'thorough' else 500
    results = run_all(modname, todo, budget, a.jobs, 6 << 30, a.v)

    # ---- replay everything the solver produced on the unpatched code
    cases, meta = [], []
    for i, r in results.items():
        h = mod.HARNESSES[i]
        if 'error' in r:
            continue
        for cnd in r['candidates']:
            cases.append({'module': modname, 'harness': h.name,
                          'values': cnd['values'], 'draws': cnd['draws']})
            meta.append(('cand', i, cnd['check']))
        for e in r['exceptions']:
            if e['case']:
                cases.append(dict(e['case'], module=modname, harness=h.name))
                meta.append(('exc', i, e['exc'] + ' @ ' + e['where']))
        for u in r['unknown'][:20]:
            if u['values']:
                cases.append(dict(u['values'], module=modname, harness=h.name))
                meta.append(('unk', i, u['check']))
        for w in r['witnesses']:
            cases.append(dict(w, module=modname, harness=h.name))
            meta.append(('wit', i, ''))
    import tempfile
    with tempfile.TemporaryDirectory() as td:
        outs = replay_batch(cases, td, 200)

    violations, inconclusive, disagreements, validated = [], [], [], 0
    reproduced = set()
    cand_checks = {}
    for case, (kind, i, chk), out in zip(cases, meta, outs):
        h = mod.HARNESSES[i]
        bad = out is not None and not out['skipped'] and (out['failed'] or out['exception']) \
            and not (out['exception'] or '').startswith('RuntimeError: replay:')
        if kind == 'exc' and bad and not out['failed'] and \
                (out['exception'] or '').split(':')[0].split('.')[-1] != \
                chk.split(':')[0].split('.')[-1]:
            bad = False       # some other exception than the one predicted
        if kind in ('cand', 'exc', 'unk'):
            key = (i, chk)
            if kind != 'unk':
                cand_checks.setdefault(key, False)
            if bad:
                cand_checks[key] = True
                if key not in reproduced:
                    reproduced.add(key)
                    violations.append((h.name, chk, case, out))
        else:
            if out is None:
                pass
            elif bad:
                disagreements.append({'harness': h.name, 'values': case['values'],
                                      'failed': out['failed'][:3], 'exception': out['exception']})
            elif not out['skipped']:
                validated += 1
    for (i, chk), ok in cand_checks.items():
        if not ok:
            inconclusive.append('%s/%s: counterexample did not reproduce on the real code'
                                % (mod.HARNESSES[i].name, chk))
    # ---- harnesses that were not decided completely: try inputs from their bounds
    undecided = set(i for (i, chk), ok in cand_checks.items() if not ok)
    for i, r in results.items():
        if 'error' in r or r['unknown'] or r['truncated'] or r['exceptions'] or not r['witnesses']:
            undecided.add(i)
    found = set(v[0] for v in violations)
    undecided = [i for i in (todo if os.environ.get('SYMX_RESCUE') else sorted(undecided))
                 if mod.HARNESSES[i].name not in found]
    rescued = {}
    if undecided:
        rescued = rescue(modname, [mod.HARNESSES[i].name for i in undecided], a.jobs,
                         60 if tier == 'quick' else 100)
        for name, (bad, runs) in rescued.items():
            if bad:
                chk = bad['failed'][0][0] if bad['failed'] else bad['exception']
                violations.append((name, chk, bad['case'], bad))
    tots = {'normal_form': 0, 'unsat': 0, 'sat': 0, 'unknown': 0}
    paths = decisions = 0
    stats = {}
    functions = set()
    per = {}
    vacuous = []
    for i, r in sorted(results.items()):
        h = mod.HARNESSES[i]
        if 'error' in r:
            inconclusive.append('%s: %s' % (h.name, r['error']))
            if a.v:
                print(r.get('trace'))
            continue
        for k, v in tot(r).items():
            if k in tots:
                tots[k] += v
        paths += r['paths']
        decisions += r['decisions']
        functions |= set(r['functions'])
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for u in r['unknown']:
            inconclusive.append('%s/%s: %s' % (h.name, u['check'], u['why']))
        if r['truncated']:
            inconclusive.append('%s: %s' % (h.name, r['truncated']))
        for e in r['exceptions']:
            if (i, e['exc'] + ' @ ' + e['where']) not in cand_checks:
                inconclusive.append('%s: %s @ %s (no model)' % (h.name, e['exc'], e['where']))
            if a.v:
                print(h.name, e['exc'], e['where'])
                print(e['trace'])
        if not r['witnesses'] and not r['exceptions']:
            vacuous.append(h.name)
        per[h.name] = {'bounds': h.bounds, 'paths': r['paths'], 'skipped_paths': r['skipped'],
                       'infeasible_paths': r['infeasible'],
                       'unknown_branch_checks': r['unknown_branches'],
                       'witnesses': len(r['witnesses']), 'wall_s': round(r['wall'], 2),
                       'obligations': {k: {x: y for x, y in v.items() if y}
                                       for k, v in r['obligations'].items()}}
    for n in vacuous:
        inconclusive.append('%s: no feasible finished path was witnessed' % n)

    known = known_findings(prop)
    shown = set()
    new = []
    for hname, chk, case, out in violations:
        hit = None
        for kh, kc, line in known:
            names = [n for n, _ in out['failed']]
            if kh == hname and (kc in (None, '*') or any(n.startswith(kc) for n in names)
                                or chk.startswith(kc)):
                hit = line
        if hit:
            if hit not in shown:
                shown.add(hit)
                print(hit)
        else:
            new.append((hname, chk, case, out))
    # a listed finding is printed on every run, found or not
    for kh, kc, line in known:
        if line not in shown and tier == 'thorough':
            print(line)

    samples = []
    for case, (kind, i, chk), out in zip(cases, meta, outs):
        if kind == 'wit' and out is not None and len(samples) < 4:
            samples.append({'harness': case['harness'], 'values': case['values'],
                            'checks_passed_on_real_code': out['passed']})
    wall = time.time() - t0
    cov = {
        'explanation': 'Each harness executes the real functions listed under '
                       'functions_encoded symbolically (operator overloading on the '
                       'imported source of this run); every path inside the bounds is '
                       'explored; each assertion is decided for all values on its path, '
                       'either by reduction to normal form modulo the defining equations '
                       '(normal_form) or by an SMT query (unsat = holds).',
        'states': paths, 'transitions': decisions,
        'traces_validated_against_impl': validated,
        'samples': samples,
        'functions_encoded': sorted(functions),
        'obligations_decided': tots['normal_form'] + tots['unsat'] + tots['sat'],
        'by_normal_form': tots['normal_form'], 'by_solver_unsat': tots['unsat'],
        'solver_sat': tots['sat'], 'solver_unknown': tots['unknown'],
        'queries': stats.get('queries', 0),
        'solver_time_s': round(stats.get('time', 0), 2),
        'query_results': {k: stats.get(k, 0) for k in ('sat', 'unsat', 'unknown')},
        'query_engines': {k: stats.get(k, 0) for k in ('z3', 'z3-nlsat', 'cvc5')},
        'harnesses': per,
        'inconclusive': inconclusive,
        'replay_disagreements': disagreements,
        'runs_on_real_code_of_undecided_harnesses': {k: v[1] for k, v in rescued.items()},
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
          'wall_s': round(wall, 2), 'violations': len(new)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    decided = cov['obligations_decided']
    print('%s %s: %d harnesses, %d paths, %d obligations decided (%d normal form, %d unsat, '
          '%d sat), %d inconclusive, %d witnesses replayed, %d queries, %.0fs solver, %.0fs wall'
          % (prop, tier, len(todo), paths, decided, tots['normal_form'], tots['unsat'],
             tots['sat'], len(inconclusive), validated, stats.get('queries', 0),
             stats.get('time', 0), wall))
    for t in inconclusive[:40]:
        print('INCONCLUSIVE', t)
    for d in [d for d in disagreements if d['harness'] not in {v[0] for v in violations}][:10]:
        print('REPLAY-DISAGREEMENT', d)
    if new:
        for n, (hname, chk, case, out) in enumerate(new[:8]):
            path = os.path.join(rpdir, '%s_%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(case, f, indent=1)
            print('  %s / %s: %s %s' % (hname, chk, out['failed'][:3], out['exception'] or ''))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        return 1
    if decided == 0:
        print('ERROR property=%s nothing could be decided' % prop)
        return 2
    return 0


COMMON = [
    'Real arithmetic: floats are modelled as exact reals (sums, products, roots and '
    'trigonometric identities hold exactly); rounding, overflow and -0.0 are outside the claim.',
    'math.pi is the rational value of the float; cos/sin of rational multiples of it are exact.',
    'numpy, transforms3d (pure Python, executed symbolically too) and astropy.table are '
    'trusted; numpy calls are encoded by symx/npshim.py, validated by replaying solver models '
    'through real numpy.',
    'np.random draws are arbitrary values within the documented range of the generator.',
]

if __name__ == '__main__':
    sys.exit(main())
