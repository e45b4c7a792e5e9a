"""C04: lifts constrained by radii / barcodes."""
from harness import gen, pers
from harness.core import call, imat, Malformed

COUNT = {'quick': 6000, 'thorough': 80000}


def pivots_unique(r, m, s, p):
    """s columns with pairwise distinct pivots (zero columns allowed)."""
    rows = r.sample(range(m), min(m, s))
    cols = []
    for k in range(s):
        c = [0] * m
        if k < len(rows) and r.random() < .9:
            c[rows[k]] = r.randint(1, p - 1)
            for i in range(rows[k]):
                if r.random() < .6:
                    c[i] = r.randrange(p)
        cols.append(c)
    r.shuffle(cols)
    return cols


def cases(seed, tier, extra):
    r = gen.rng('C04', seed, 'main')
    big = [(8, 140, 3), (140, 8, 3), (40, 30, 4), (6, 70, 2), (140, 6, 2),
           (270, 4, 2), (4, 270, 2)] * 2
    for n_ in range(COUNT[tier]):
        p = gen.pick_prime(r)
        m, s, t = r.randint(1, 6), r.randint(1, 5), r.randint(1, 4)
        if n_ < len(big):
            m, s, t = big[n_]
        elif r.random() < .04:
            p = r.choice(gen.BIG)
        if r.random() < .5:
            cols = pivots_unique(r, m, s, p)
            if r.random() < .1:
                cols = [[r.randrange(p) for _ in range(m)]
                        for _ in range(s)]
            rad = [r.randint(0, 4) for _ in range(s + t)]
            for j in range(s, s + t):
                c = [0] * m
                for k in range(s):
                    ok = rad[k] <= rad[j]
                    if (ok and r.random() < .7) or r.random() < min(.03, .15 / s):
                        q = r.randrange(p)
                        c = [(x + q * y) % p for x, y in zip(c, cols[k])]
                if r.random() < .08:
                    c[r.randrange(m)] = r.randrange(p)
                cols.append(c)
            A = [[cols[j][i] for j in range(s + t)] for i in range(m)]
            if r.random() < .3:   # unreduced representatives are accepted
                A = [[x + p * r.randint(-1, 1) for x in row] for row in A]
            yield {'op': 'rad', 'A': A, 'rad': rad, 's': s, 'p': p,
                   'kind': r.randrange(len(pers.SCALES))}
        else:
            R = 6
            rb = [sorted(r.sample(range(R + 1), 2)) for _ in range(m)]
            cb = [sorted(r.sample(range(R + 1), 2)) for _ in range(s + t)]
            if r.random() < .7:
                rb = [[r.randint(0, 2), r.randint(3, R)] for _ in range(m)]
                cb[:s] = [[r.randint(0, 2), r.randint(2, R)
                           + 1] for _ in range(s)]
            rb.sort(key=lambda b: (b[0], -b[1]))
            cb[:s] = sorted(cb[:s], key=lambda b: (b[0], -b[1]))
            cols = [[r.randrange(p) if r.random() < .6 else 0
                     for _ in range(m)] for _ in range(s)]
            for j in range(s, s + t):
                c = [0] * m
                b = cb[j][0]
                for k in range(s):
                    act = cb[k][0] <= b < cb[k][1]
                    if (act and r.random() < .8) or r.random() < min(.05, .25 / s):
                        q = r.randrange(p)
                        c = [(x + q * y) % p for x, y in zip(c, cols[k])]
                for i in range(m):
                    if not (rb[i][0] <= b < rb[i][1]) and r.random() < .5:
                        c[i] = r.randrange(p)   # not looked at
                if r.random() < .08:
                    c[r.randrange(m)] = r.randrange(p)
                cols.append(c)
            A = [[cols[j][i] for j in range(s + t)] for i in range(m)]
            yield {'op': 'bars', 'A': A, 'rb': rb, 'cb': cb, 's': s, 'p': p,
                   'kind': r.randrange(len(pers.SCALES))}


def record(c):
    import numpy as np
    from permaviss.gauss_mod_p.gauss_mod_p import (
        gauss_col_rad, gauss_barcodes)
    A = np.array(c['A'], dtype=float)
    A0 = A.copy()
    m, n = A.shape
    s, p = c['s'], c['p']
    f = pers.SCALES[c.get('kind', 0)]
    ev = {'op': c['op'], 'A': c['A'], 'm': m, 'n': n, 's': s, 'p': p}
    if c['op'] == 'rad':
        rad = np.array([f(x) for x in c['rad']])
        ev['rad'] = c['rad']
        out, ev['exc'] = call(gauss_col_rad, A, rad, s, p)
        if not ev['exc']:
            if not isinstance(out, tuple) or len(out) != 2:
                raise Malformed('expected a pair')
            ev['R'], ev['T'] = imat(out[0], m, n), imat(out[1], n, n)
        else:
            ev['R'] = ev['T'] = []
        ev['pure'] = bool(np.array_equal(A, A0))
    else:
        ev['rb'], ev['cb'] = c['rb'], c['cb']
        rb = np.array([[f(x) for x in b] for b in c['rb']])
        cb = np.array([[f(x) for x in b] for b in c['cb']])
        rb0, cb0 = rb.copy(), cb.copy()
        out, ev['exc'] = call(gauss_barcodes, A, rb, cb, s, p)
        ev['C'] = [] if ev['exc'] else imat(out, s, n - s)
        ev['pure'] = bool(np.array_equal(A, A0) and np.array_equal(
            rb, rb0) and np.array_equal(cb, cb0))
    return ev


def check(run):
    run.design('Lift', cfg='Lift' + (
        '_deep' if run.tier == 'thorough' else ''))
    ev = run.drive()
    run.notes['accepted'] = sum(1 for e in ev if e['exc'] == '')
    run.notes['rejected'] = sum(1 for e in ev if e['exc'] != '')
    run.judge('TraceGauss', ev)
    run.assumptions = [
        'completeness of the radius lift is required only when the given '
        'columns have pairwise distinct pivots (its documented use)']
    return run.finish(rule='random systems with prescribed combinations of '
                      'admissible columns, plus disturbed and inadmissible '
                      'ones')
