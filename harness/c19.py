"""C19: farthest point samples and example point clouds."""
import math
from harness import gen
from harness.core import Malformed, i_

COUNT = {'quick': 2600, 'thorough': 30000}
SEEDS = {'quick': 2, 'thorough': 6}
CASE_LIMIT = 40
K = 10000


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            for s in range(SEEDS[tier]):
                yield {'op': 'sample', 'P': b['P'], 'k': b['k'], 'must': 1,
                       'seed': seed + 17 * s, 'unit': [1., .5, .1][n % 3]}
        return
    r = gen.rng('C19', seed, 'main')
    for m, k in [(300, 15), (140, 20), (90, 90), (270, 5)]:
        yield {'op': 'sample', 'P': [[r.randint(-900, 900) for _ in range(2)]
                                     for _ in range(m)], 'k': k, 'must': 1,
               'seed': r.randint(0, 10 ** 6), 'unit': r.choice([1., .5])}
    for op in ('circle', 'noisy', 'ball', 'sphere', 'cube', 'grid', 'torus'):
        yield {'op': op, 'n': 300, 'seed': r.randint(0, 10 ** 6), 'R': 3.5,
               'dim': r.choice([2, 3, 7, 12]), 'eps': .3, 'center': None,
               'div': [20, 15], 'r': 1., 'must': 1}
    for n in range(COUNT[tier]):
        op = r.choice(['sample'] * 6 + ['circle', 'noisy', 'ball', 'sphere',
                                        'cube', 'grid', 'torus'])
        c = {'op': op, 'n': r.randint(1, 30), 'seed': r.randint(0, 10 ** 6),
             'R': r.choice([1, 1., .25, 3.5, 40.]), 'dim': r.choice([1, 2, 3, 4, 5, r.randint(6, 16)])}
        if op == 'sample':
            d = r.choice([1, 2, 2, 3, 4])
            hi = r.choice([1, 2, 5, 40, 400])
            m = r.choice([1, 2, 3, 5, 8, 12, 20, 35])
            c['P'] = [[r.randint(-hi, hi) for _ in range(d)]
                      for _ in range(m)]
            c['k'] = r.choice([1, 2, m - 1, m, m + 3, r.randint(1, m),
                               r.randint(1, m)]) or 1
            c['unit'] = r.choice([1., .5, .125, 1e-6, 2. ** -24, 2. ** 20])
            if r.random() < .1:
                c['seed'] = r.choice([0, 1])
            if r.random() < .2:
                c['int'] = 1
                c['unit'] = 1
        elif op == 'noisy':
            c['eps'] = r.choice([0, .05, .3, 1.])
            c['center'] = r.choice([None, [0, 0], [1, -2], [.5, 10.]])
        elif op == 'grid':
            c['div'] = [r.randint(1, 6) for _ in range(r.choice([2, 3]))]
        elif op == 'torus':
            c['r'], c['R'] = r.choice([(None, None), (1, 3), (.5, 2.), (2, 2),
                                       (1., 5.), (3, 1), (2.5, 2.)])
        yield c


def points(X, what, scale, tol=None):
    """Points in integer units; tol: must be integers up to tol."""
    out = []
    if not hasattr(X, 'tolist'):
        raise Malformed('%s is not an array' % what)
    for x in X.tolist():
        if not isinstance(x, list):
            raise Malformed('%s is not a list of points' % what)
        row = []
        for v in x:
            w = v * scale
            if w != w or abs(w) > 40000:
                raise Malformed('%s has a far coordinate %r' % (what, v))
            if tol is not None and abs(w - round(w)) > tol:
                raise Malformed('%s has coordinate %r' % (what, v))
            row.append(int(round(w)))
        out.append(row)
    return out


def distinct(Y):
    return len(set(tuple(y) for y in Y.tolist())) == len(Y)


def record(c):
    import numpy as np
    from permaviss.sample_point_clouds import examples as X
    op = c['op']
    if op == 'sample':
        if c.get('int'):
            P = np.array(c['P'])
        else:
            P = np.array(c['P'], dtype=float) * c['unit']
        ev = {'op': op, 'P': c['P'], 'k': c['k']}
        S = X.take_sample(P, c['k'], c['seed'])
        ev['S'] = points(S, 'sample', 1. / c['unit'], 1e-6)
        ev['again'] = points(X.take_sample(P, c['k'], seed=c['seed']),
                             'sample', 1. / c['unit'], 1e-6)
        return ev
    np.random.seed(c['seed'])
    n, R = c['n'], c['R']
    ev = {'op': op, 'n': n, 'dim': c['dim'], 'K': K}
    if op == 'circle':
        ev['dim'] = 2
        ev['pts'] = points(X.circle(n, R), op, K / R)
    elif op == 'noisy':
        ev['dim'], ev['eps'] = 2, int(round(c['eps'] * K))
        a = (n, R, c['eps']) + (() if c['center'] is None
                                else (c['center'],))
        o = np.array(c['center'] or [0, 0])
        if c['center'] is None:
            f = lambda: X.random_circle(*a, seed=c['seed'])
        else:
            f = lambda: X.random_circle(*(a + (c['seed'],)))
        Y = f() - o
        ev['pts'], ev['distinct'] = points(Y, op, K / R), distinct(Y)
        ev['again'] = points(f() - o, op, K / R)
    elif op == 'ball':
        Y = X.ball(n, R, c['dim'])
        ev['pts'] = points(Y, op, K / R)
        ev['distinct'] = distinct(Y)
    elif op == 'sphere':
        Y = X.random_sphere(n, R, c['dim'])
        ev['pts'] = points(Y, op, K / R)
        ev['distinct'] = distinct(Y)
    elif op == 'cube':
        Y = X.random_cube(n, c['dim'])
        ev['pts'] = points(Y, op, K)
        ev['distinct'] = distinct(Y)
    elif op == 'grid':
        d = c['div']
        Y = X.grid(*d) if len(d) == 2 else X.grid_tridimensional(*d)
        ev['div'], ev['dim'] = d, len(d)
        ev['n'] = d[0] * d[1] * (d[2] if len(d) == 3 else 1)
        ev['pts'] = points(Y, op, 2., 1e-9)
    else:
        ev['dim'] = 3
        r, R = c['r'], c['R']
        ev['bad'] = bool(r is not None and r > R)
        ev['raised'] = ''
        try:
            Y = X.torus3D(n) if r is None else X.torus3D(
                n, min_rad=r, max_rad=R) if c['seed'] % 2 else X.torus3D(
                    n, r, R)
        except ValueError as e:
            ev['raised'] = type(e).__name__
            ev.update(pts=[], rho=[], r=0, R=0)
            return ev
        if ev['bad']:
            ev.update(pts=[], rho=[], r=0, R=0)
            return ev
        r, R = (1, 3) if r is None else (r, R)
        s = 5000. / R
        ev['pts'], ev['distinct'] = points(Y, op, s), distinct(Y)
        ev['rho'] = [int(round(s * math.hypot(y[0], y[1])))
                     for y in Y.tolist()]
        ev['r'], ev['R'] = int(round(r * s)), int(round(R * s))
    return ev


def check(run):
    beh = run.behaviours('Sampling')
    beh += run.behaviours('Sampling', cfg='Sampling_plane',
                          name='Sampling_plane')
    if run.tier == 'thorough':
        beh += run.behaviours('Sampling', cfg='Sampling_deep',
                              name='Sampling_deep')
    ev = run.drive(run.save('sample.ndjson', beh))
    run.judge('TraceSample', ev, name='TraceSample(model inputs)')
    run.judge('TraceSample', run.drive())
    run.assumptions = [
        'at least one point and one sample are asked for',
        'coordinates of clouds to sample are multiples of a unit, so that '
        'ties of distances are exact',
        'shapes are judged up to 1/2500 of their size']
    return run.finish(rule='all clouds and requests of the model, then '
                      'random clouds with up to 35 points and random '
                      'requests to every example generator')
