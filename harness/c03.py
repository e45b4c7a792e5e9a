"""C03: linear solvers modulo p."""
from harness import gen
from harness.core import call, imat, ivec

COUNT = {'quick': 6000, 'thorough': 80000}


def cases(seed, tier, extra):
    if extra:
        for b in gen.load(extra):
            n = len(b['A'][0])
            if n < 2:
                continue
            yield {'op': 'solve', 'A': [x[:-1] for x in b['A']],
                   'b': [x[-1] for x in b['A']], 'p': b['p'], 'must': 1}
            yield {'op': 'solvem', 'A': [x[:1] for x in b['A']],
                   'B': [[x[j] for x in b['A']] for j in range(1, n)],
                   'p': b['p'], 'must': 1}
        return
    r = gen.rng('C03', seed, 'main')
    big = [(140, 5), (5, 140), (270, 3), (3, 270), (30, 30), (140, 6),
           (6, 140), (270, 3)]
    for n_ in range(COUNT[tier]):
        p = gen.pick_prime(r)
        if r.random() < .04:
            p = r.choice(gen.BIG)
        m, n, k = r.randint(1, 6), r.randint(1, 6), r.randint(1, 5)
        if r.random() < .03:
            m, n = r.randint(8, 14), r.randint(8, 14)
        if n_ < len(big):
            m, n = big[n_]
        A = gen.any_mat(r, m, n, p)
        op = r.choice(['solve', 'solvem'])
        k = 1 if op == 'solve' else k
        X = gen.rand_mat(r, n, k, p)
        B = [list(t) for t in zip(*gen.mat_mul(A, X, p))]
        x = r.random()
        if x < .35:     # disturb a single right-hand side in one entry
            q, i = r.randrange(k), r.randrange(m)
            B[q][i] = (B[q][i] + r.randint(1, p - 1)) % p
        elif x < .45:
            B = gen.rand_mat(r, k, m, p)
        c = {'op': op, 'A': A, 'p': p, 'dt': r.choice(['float', 'int'])}
        if n_ < len(big):
            c['must'] = 1
        if op == 'solve':
            c['b'] = B[0]
        else:
            c['B'] = B
        yield c


def record(c):
    import numpy as np
    from permaviss.gauss_mod_p.functions import (
        solve_mod_p, solve_matrix_mod_p)
    dt = c.get('dt', 'float')
    A = np.array(c['A'], dtype=dt)
    m, n = A.shape
    b = np.array(c['b'] if c['op'] == 'solve' else c['B'], dtype=dt)
    A0, b0 = A.copy(), b.copy()
    ev = {'op': c['op'], 'A': c['A'], 'm': m, 'n': n, 'p': c['p']}
    f = solve_mod_p if c['op'] == 'solve' else solve_matrix_mod_p
    x, ev['exc'] = call(f, A, b, c['p'])
    ev['pure'] = bool(np.array_equal(A, A0) and np.array_equal(b, b0))
    if c['op'] == 'solve':
        ev['b'] = c['b']
        ev['x'] = [] if ev['exc'] else ivec(x, n)
    else:
        ev['B'] = c['B']
        ev['X'] = [] if ev['exc'] else imat(x, n, len(c['B']))
    return ev


def check(run):
    deep = run.tier == 'thorough'
    beh = run.behaviours('GaussCol', cfg='GaussCol_deep' if deep
                         else 'GaussCol')
    run.judge('TraceGauss', run.drive(run.save('gauss.ndjson', beh)),
              name='TraceGauss(model inputs)')
    run.judge('TraceGauss', run.drive())
    run.assumptions = ['entries are given reduced modulo p; at least one '
                       'row and one column']
    return run.finish(rule='all augmented matrices of the model '
                      'configuration, then random systems: solvable, '
                      'disturbed in one entry, random')
