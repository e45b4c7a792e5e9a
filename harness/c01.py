"""C01: arithmetic modulo p."""
from harness import gen
from harness.core import Malformed, call, i_, imat

COUNT = {'quick': 12000, 'thorough': 300000}


HUGE = [2147483647, 4294967311, 2 ** 61 - 1, 2 ** 89 - 1, 2 ** 127 - 1]
WIDE = [16777259, 1000000007, 2147483647]


def large(r, count):
    """Numbers beyond 32 bits, within what the given type represents."""
    for n in range(count):
        p = r.choice(WIDE + HUGE + [1000003])
        a = r.choice([r.randrange(1, p), r.randint(-9 * p, 9 * p), p - 1, -1,
                      (p - 1) // 2, p + 1, 2])
        yield {'op': 'big', 'what': 'inv', 'a': a, 'p': p, 'must': n < 8}
        yield {'op': 'big', 'what': 'add', 'a': a, 'p': p,
               'b': r.randint(-9 * p, 9 * p)}
        p = r.choice(WIDE + [1000003])
        m, q, fl = r.randint(1, 3), r.randint(1, 3), r.random() < .5
        lim = 2 ** 51 if fl else 2 ** 61
        yield {'op': 'big', 'what': 'addarr', 'p': p, 'float': fl, 'A': [
            [r.randint(-lim, lim) for _ in range(q)] for _ in range(m)],
            'B': [[r.randint(-lim, lim) for _ in range(q)]
                  for _ in range(m)]}
        fl = r.random() < .5
        p = r.choice([1000003, 4194319] if fl else WIDE[:2] + [1000003])
        s = r.randint(1, 6)
        yield {'op': 'big', 'what': 'mul', 'p': p, 'float': fl,
               'A': gen.rand_mat(r, m, s, p, 1.),
               'B': gen.rand_mat(r, s, q, p, 1.)}


def limbs(n):
    v, m = [], abs(n)
    while m:
        v.append(m % 16384)
        m //= 16384
    return {'n': int(n < 0), 'v': v or [0]}


def exact(x):
    if isinstance(x, float) or hasattr(x, 'dtype'):
        f = x.item() if hasattr(x, 'item') else x
        if isinstance(f, float) and not f.is_integer():
            raise Malformed('not an integer: %r' % (x,))
        return int(f)
    return int(x)


def record_big(c):
    """Results with certificates: sum of products = value + quotient p."""
    import numpy as np
    from permaviss.gauss_mod_p import arithmetic_mod_p as ar
    from permaviss.gauss_mod_p.functions import multiply_mod_p
    p, what, eqs, ok = c['p'], c['what'], [], True
    dt = float if c.get('float') else np.int64

    def eq(terms, x):
        k = (sum(a * b for a, b in terms) - x) // p
        eqs.append({'t': [[limbs(a), limbs(b)] for a, b in terms],
                    'x': limbs(x)['v'], 'k': limbs(k), 'neg': int(x < 0)})
    if what == 'inv':
        x, exc = call(ar.inv_mod_p, c['a'], p)
        if not exc:
            x = exact(x)
            eq([(c['a'], x)], 1)
            ok = 0 <= x < p
        if c['a'] % p == 0:
            exc, eqs = '' if exc == 'ValueError' else 'inverse of zero', []
    elif what == 'add':
        s, exc = call(ar.add_mod_c, c['a'], c['b'], p)
        if not exc:
            eq([(c['a'], 1), (c['b'], 1)], exact(s))
    else:
        A, B = np.array(c['A'], dtype=dt), np.array(c['B'], dtype=dt)
        X, exc = call(ar.add_arrays_mod_c if what == 'addarr'
                      else multiply_mod_p, A, B, p)
        if not exc:
            X = np.asarray(X)
            if X.shape != (A.shape[0], B.shape[1]):
                raise Malformed('shape %s' % (X.shape,))
            for i in range(X.shape[0]):
                for j in range(X.shape[1]):
                    eq([(c['A'][i][j], 1), (c['B'][i][j], 1)]
                       if what == 'addarr' else
                       [(a, row[j]) for a, row in zip(c['A'][i], c['B'])],
                       exact(X[i][j]))
    return {'op': 'big', 'what': what, 'p': limbs(p)['v'], 'eqs': eqs,
            'inrange': ok, 'exc': exc}


def cases(seed, tier, extra):
    if extra:
        for b in gen.load(extra):
            yield {'op': 'inv', 'a': b['a'], 'p': b['p'], 'must': 1,
                   'name': 'model inv %d mod %d' % (b['a'], b['p'])}
        return
    r = gen.rng('C01', seed, 'main')
    for m, s, q in [(2, 300, 2), (140, 3, 2), (3, 2, 270), (40, 40, 40)]:
        p = gen.pick_prime(r)
        yield {'op': 'mul', 'A': gen.rand_mat(r, m, s, p), 'p': p, 'must': 1,
               'B': gen.rand_mat(r, s, q, p), 'float': r.random() < .5}
        yield {'op': 'addarr', 'p': p, 'A': gen.rand_mat(r, m, s, p),
               'B': gen.rand_mat(r, m, s, p), 'float': r.random() < .5,
               'must': 1}
    for n in (1, 70, 129, 150, 255, 256, 257, 300):
        v = [0] * 310
        for k in (0, n // 2, n):
            v[k] = r.choice([1, -1, 3])
        yield {'op': 'pivot', 'v': v, 'must': 1}
    for c in large(r, 60 if tier == 'quick' else 2000):
        yield c
    for n in range(COUNT[tier]):
        p = gen.pick_prime(r, big=True)
        k = r.random()
        if k < 0.15:
            c = r.choice([p, r.randint(1, 60)])
            yield {'op': 'add', 'a': r.randint(-9 * c, 9 * c),
                   'b': r.randint(-9 * c, 9 * c), 'p': c}
        elif k < 0.3:
            c = r.choice([p, r.randint(1, 60)])
            m, q = r.randint(1, 5), r.randint(1, 5)
            yield {'op': 'addarr', 'p': c, 'A': [[r.randint(
                -5 * c, 5 * c) for _ in range(q)] for _ in range(m)],
                'B': [[r.randint(-5 * c, 5 * c) for _ in range(q)]
                      for _ in range(m)], 'float': r.random() < .5}
        elif k < 0.5:
            a = r.choice([r.randint(1, p), r.randint(-6 * p, 6 * p),
                          p - 1, 1, -1, p + 1, r.randint(-3, 3)])
            if r.random() < .15:
                p = r.choice([4, 6, 8, 9, 10, 12, 15, 21, 49])
            yield {'op': 'inv', 'a': a, 'p': p}
        elif k < 0.6:
            v = [r.choice([0, 0, 1, -1, r.randint(-5, 5)])
                 for _ in range(r.randint(1, 9))]
            yield {'op': 'pivot', 'v': v}
        else:
            lim = min(p, 46341)
            m, s, q = r.randint(1, 6), r.randint(1, 7), r.randint(1, 6)
            if r.random() < .03:
                s = r.randint(30, 90)
            lo, hi = (0, lim - 1) if r.random() < .6 else (-lim, 2 * lim)
            A = [[r.randint(lo, hi) for _ in range(s)] for _ in range(m)]
            B = [[r.randint(lo, hi) for _ in range(q)] for _ in range(s)]
            yield {'op': 'mul', 'A': A, 'B': B, 'p': p,
                   'float': r.random() < .5}


def record(c):
    import numpy as np
    from permaviss.gauss_mod_p import arithmetic_mod_p as ar
    from permaviss.gauss_mod_p.functions import multiply_mod_p
    from permaviss.gauss_mod_p.gauss_mod_p import index_pivot
    op = c['op']
    if op == 'big':
        return record_big(c)
    ev = {k: c[k] for k in ('op', 'a', 'b', 'p', 'A', 'v') if k in c}
    dt = float if c.get('float') else int
    if op == 'add':
        s, ev['exc'] = call(ar.add_mod_c, c['a'], c['b'], c['p'])
        ev['s'] = i_(s) if not ev['exc'] else 0
    elif op == 'addarr':
        ev['B'] = c['B']
        A, B = np.array(c['A'], dtype=dt), np.array(c['B'], dtype=dt)
        S, ev['exc'] = call(ar.add_arrays_mod_c, A, B, c['p'])
        ev['S'] = [] if ev['exc'] else imat(S, *A.shape)
    elif op == 'inv':
        x, ev['exc'] = call(ar.inv_mod_p, c['a'], c['p'])
        ev['x'] = i_(x) if not ev['exc'] else 0
        # the reductions of the library call it with float entries
        y, e2 = call(ar.inv_mod_p, np.float64(c['a']), c['p'])
        if e2 != ev['exc'] or (not e2 and (i_(y) - ev['x']) % c['p']):
            ev['exc'] = 'differs for float argument'
    elif op == 'pivot':
        x, ev['exc'] = call(index_pivot, np.array(c['v']))
        ev['x'] = i_(x) if not ev['exc'] else 0
    else:
        A, B = np.array(c['A'], dtype=dt), np.array(c['B'], dtype=dt)
        ev['m'], ev['n'] = A.shape[0], B.shape[1]
        ev['BT'] = B.T.astype(int).tolist()
        X, ev['exc'] = call(multiply_mod_p, A, B, c['p'])
        ev['X'] = [] if ev['exc'] else imat(X, ev['m'], ev['n'])
    return ev


def check(run):
    beh = run.behaviours('Euclid', cfg='Euclid' + (
        '_deep' if run.tier == 'thorough' else ''))
    run.judge('TraceGauss', run.drive(run.save('euclid.ndjson', beh)),
              name='TraceGauss(model inputs)')
    run.judge('TraceGauss', run.drive())
    run.assumptions = ['sums and products fit the type of the operands '
                       '(53 bits for floats, 63 bits for numpy integers)',
                       'prime moduli up to 2^127 - 1 for numbers, 2^31 - 1 '
                       'for arrays']
    return run.finish(rule='every residue of every prime of the model, then '
                      'random operands (negative, unreduced, float and int '
                      'dtype), recomputed by Fp.tla')
