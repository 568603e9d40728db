"""Sequences of elements, records of single steps and search for elements."""
from symx.worker import registry

HARNESSES, harness = registry()
ASSUMPTIONS = [
    'Sequences of up to 3 elements, nested up to 3 levels; recorded positions of up to 3 steps '
    'and 2 photons.',
]


def lin(env, mod, name, log, a, b, new=False):
    """An element energy -> a * energy + b (which returns a new list if `new`)."""
    base = env.imp('marxs.base')

    class Lin(base.SimulationSequenceElement):
        def process_photons(self, photons):
            log.append((name, photons['energy'].copy()))
            if new:
                photons = photons.copy()
            photons['energy'] = a * photons['energy'] + b
            return photons
    return Lin()


@harness(timeout=60)
def steps(env):
    """order of elements and of steps before and after each of them, any linear changes, in
    place or with new lists."""
    sim = env.imp('marxs.simulator')
    a, b = [env.real('a%d' % i) for i in range(3)], [env.real('b%d' % i) for i in range(3)]
    e = [env.real('e%d' % i) for i in range(2)]
    new = [env.choice('new%d' % i, [False, True]) for i in range(3)]
    log = []
    el = [lin(env, sim, i, log, a[i], b[i], new[i]) for i in range(3)]
    pre = [lambda p: log.append(('pre0', p['energy'].copy())),
           lambda p: log.append(('pre1', p['energy'].copy()))]
    post = [lambda p: log.append(('post', p['energy'].copy()))]
    nest = env.choice('nested', ['flat', 'inner', 'inner with steps'])
    if nest == 'flat':
        seq = sim.Sequence(elements=el, preprocess_steps=pre, postprocess_steps=post)
        order = ['pre0', 'pre1', 0, 'post', 'pre0', 'pre1', 1, 'post', 'pre0', 'pre1', 2, 'post']
    elif nest == 'inner':
        inner = sim.Sequence(elements=el[1:])
        seq = sim.Sequence(elements=[el[0], inner], preprocess_steps=pre,
                           postprocess_steps=post)
        order = ['pre0', 'pre1', 0, 'post', 'pre0', 'pre1', 1, 2, 'post']
    else:
        inner = sim.Sequence(elements=el[:2], postprocess_steps=post)
        seq = sim.Sequence(elements=[inner, el[2]], preprocess_steps=pre)
        order = ['pre0', 'pre1', 0, 'post', 1, 'post', 'pre0', 'pre1', 2]
    ph = env.photons(2, [[0, 0, 0, 1]] * 2, [[1, 0, 0, 0]] * 2, energy=e)
    if env.choice('no photons', [False, True]):
        ph, e = ph[:0], []
    n = len(e)
    ph = seq(ph)
    env.check('number of photons', len(ph) == n)
    env.check('order of the steps', [x[0] for x in log] == order)
    val = [list(e)]
    for i in range(3):
        val.append([a[i] * x + b[i] for x in val[-1]])
    for i in range(n):
        env.check_eq('result %d' % i, ph['energy'][i], val[3][i])
    k = 0
    for name, x in log:
        for i in range(n):
            env.check_eq('seen in step %s' % name, x[i], val[k][i])
        if isinstance(name, int):
            k += 1


@harness(timeout=60)
def keepcol(env):
    """recorded positions are those of each step, whatever happens to the list later."""
    sim = env.imp('marxs.simulator')
    d = [env.real('d%d' % i, -9, 9) for i in range(3)]
    p = [env.hpos('p%d' % i) for i in range(2)]
    v = [[1, 2, -2, 0], [0, 3, 4, 0]]
    before, after, plain = sim.KeepCol('pos'), sim.KeepCol('pos'), sim.KeepCol('energy')
    seq = sim.Sequence(elements=[sim.Propagator(distance=x) for x in d],
                       preprocess_steps=[before], postprocess_steps=[after, plain])
    ph = env.photons(2, [x.copy() for x in p], v, energy=[env.real('e0'), env.real('e1')])
    ph = seq(ph)
    ph['pos'][0] = env.arr([7, 7, 7, 7])
    ph['energy'][0] = 7
    env.check('number of records', len(before.data) == 3 and len(after.data) == 3)
    tot = env.num(0)
    for i in range(3):
        for k in range(2):
            env.check_vec('before step %d' % i, before.data[i][k],
                          p[k] + tot * env.arr(v[k]))
            env.check_vec('after step %d' % i, after.data[i][k],
                          p[k] + (tot + d[i]) * env.arr(v[k]))
        env.check_eq('other column', plain.data[i][0], plain.data[0][0])
        tot = tot + d[i]
    arr = after.format_positions()
    env.check('shape', arr.shape == (2, 3, 3))
    for k in range(2):
        for i in range(3):
            env.check_vec('formatted', arr[k][i], after.data[i][k][:3])
    env.check('no such column', env.raises(KeyError, lambda: sim.KeepCol('nothing')(ph)))
    env.check('no data', env.raises(ValueError, sim.KeepCol('pos').format_positions))
    env.check('not a position', env.raises(ValueError, plain.format_positions))


@harness(timeout=60, max_paths=1500)
def unique(env):
    """formatted positions without repeats: any three recorded steps of two photons (moved along
    x, any homogeneous weight)."""
    sim = env.imp('marxs.simulator')
    x = [[env.real('x%d' % s, 1, 5), env.num([0, 0, env.choice('second', [0, 1])][s])]
         for s in range(3)]
    w = env.choice('w', [1, -4])
    keep = sim.KeepCol('pos')
    tol = env.num(1) / 4
    for s in range(3):
        keep.data.append(env.arr([[x[s][k] * w, 2 * w, -3 * w, w] for k in range(2)]))
    try:
        got = keep.format_positions(atol=tol)
    except ValueError:
        env.check('no error', False)
        return
    # numpy.allclose(last kept, new): |last - new| <= atol + 1e-5 |new|
    kept = [0]
    eps = env.num(1) / 10 ** 5
    for s in (1, 2):
        close = True
        for k in range(2):
            dist = x[kept[-1]][k] - x[s][k]
            if dist < 0:
                dist = -dist
            m = x[s][k] if x[s][k] >= 0 else -x[s][k]
            env.assume(env.or_(dist <= tol, dist > tol + eps * 10))
            if dist > tol:
                close = False
        if not close:
            kept.append(s)
    env.check('number of places', got.shape == (2, len(kept), 3))
    for k in range(2):
        for i, s in enumerate(kept):
            env.check_vec('place', got[k][i], [x[s][k], 2, -3])


@harness(timeout=60)
def moved(env):
    """moving photons along their rays: any unit direction, place and distance."""
    sim = env.imp('marxs.simulator')
    d = env.real('d', -100, 100)
    p, v = env.hpos('p'), env.hdir('v')
    how = env.choice('how', ['function', 'element'])
    ph = env.photons(2, [p.copy(), [1, 2, 3, 1]], [v.copy(), [0, 0, -1, 0]])
    ph = sim.propagate(ph, d) if how == 'function' else sim.Propagator(distance=d)(ph)
    env.check_vec('place', ph['pos'][0], p + d * v)
    env.check_vec('second place', ph['pos'][1], [1, 2, 3 - d, 1])
    env.check_vec('direction', ph['dir'][0], v)
    diff = ph['pos'][0] - p
    env.check_eq('distance', env.norm2(diff[:3]), d * d)


def tree(env, sim, o, depth, name, log):
    """Any tree of containers (two classes, one derived from the other) and elements."""
    class Sub(sim.Sequence):
        pass
    if 'Sub' not in log:
        log['Sub'] = Sub
    Sub = log['Sub']
    kind = env.choice(name, ['leaf', 'other', 'seq', 'sub'] if depth else ['leaf', 'other'])
    if kind == 'leaf':
        return o.FlatDetector(pixsize=0.5)
    if kind == 'other':
        return o.Baffle()
    ch = [tree(env, sim, o, depth - 1, name + '0', log)]
    if depth == 2:
        ch.append(tree(env, sim, o, 0, name + '1', log))
    return (sim.Sequence if kind == 'seq' else Sub)(elements=ch)


@harness(timeout=80, max_paths=4500)
def search(env):
    """search for all elements of a class in any hierarchy of up to 3 levels; with and without
    derived classes; only the first ones of each branch."""
    sim = env.imp('marxs.simulator')
    o = env.imp('marxs.optics')
    log = {}
    top = sim.Sequence(elements=[tree(env, sim, o, 2, 't0', log), o.Baffle(),
                                 tree(env, sim, o, 1, 't1', log)])
    Sub = log['Sub']

    def walk(e, match, first):
        r = []
        if match(e):
            r.append(e)
            if first:
                return r
        for x in getattr(e, 'elements', []):
            r += walk(x, match, first)
        return r

    for cls in (sim.Sequence, Sub, o.FlatDetector, sim.BaseContainer):
        for sub in (False, True):
            match = (lambda e: isinstance(e, cls)) if sub else (lambda e: type(e) is cls)
            want0 = None
            for i, x in enumerate(top.elements):
                if want0 is None and walk(x, match, True):
                    want0 = i
            env.check('first of class %s' % cls.__name__,
                      top.first_of_class_top_level(cls, subclass_ok=sub) == want0)
            for first in (False, True):
                got = top.elements_of_class(cls, subclass_ok=sub, stop_at_first=first)
                want = walk(top, match, first)
                env.check('elements of class %s' % cls.__name__,
                          [id(x) for x in got] == [id(x) for x in want])


@harness(timeout=30)
def refused(env):
    """things that cannot be called are refused as elements or steps."""
    sim = env.imp('marxs.simulator')
    x = env.real('x')
    ok = [lambda p: p]
    for k in ('elements', 'preprocess_steps', 'postprocess_steps'):
        kw = {'elements': ok, 'preprocess_steps': ok, 'postprocess_steps': ok}
        sim.Sequence(**kw)
        kw[k] = ok + [x]
        env.check('refused: ' + k,
                  env.raises(sim.simulator.SimulationSetupError, lambda: sim.Sequence(**kw)))
