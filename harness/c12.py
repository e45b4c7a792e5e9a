"""C12: the cubical cover, its nerve and its cells."""
from harness import gen
from harness.core import call, i_, Malformed

COUNT = {'quick': 700, 'thorough': 9000}
CASE_LIMIT = 40


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield {'op': 'cover', 'X': b['X'], 'm': b['m'], 'w': b['w'],
                   'scale': 2, 'int': n % 2, 'must': 1}
            if n % 9 == 0:
                yield {'op': 'nerve', 'div': b['div'], 'must': 1}
        return
    r = gen.rng('C12', seed, 'main')
    for d in range(1, 4):                      # every small grid
        tops = {1: 6, 2: 4, 3: 3}[d]
        import itertools
        for div in itertools.product(range(1, tops + 1), repeat=d):
            if div[0] * (div + (1,))[1] * (div + (1, 1))[2] > 18:
                continue
            yield {'op': 'nerve', 'div': list(div), 'must': 1}
            for pos in itertools.product(*[range(x) for x in div]):
                yield {'op': 'next', 'pos': list(pos), 'div': list(div),
                       'must': 1}
    for N, d, m, span in [(300, 1, 3, 1000), (150, 2, 2, 64), (140, 2, 3, 300),
                          (300, 2, 2, 1000), (20, 1, 140, 700),
                          (12, 1, 270, 1080)]:
        X = [[r.randint(0, span) for _ in range(d)] for _ in range(N)]
        yield {'op': 'cover', 'X': X, 'm': m, 'w': r.choice([1, 4, 16]),
               'scale': r.choice([1, 8, 10]), 'int': 0, 'must': 1}
    for n in range(40 if tier == 'quick' else 400):   # fine coordinates
        yield dict(fine(r), op=r.choice(['cover'] * 5 + ['corners']), must=1)
    for n in range(COUNT[tier]):
        op = r.choice(['cover'] * 6 + ['inter', 'corners'])
        if op == 'inter':
            k = r.randint(1, 5)
            reg = [sorted(r.sample(range(9), r.randint(0, 7)))
                   for _ in range(k)]
            yield {'op': op, 'regions': reg,
                   'spx': sorted(r.sample(range(k), r.randint(1, k)))}
            continue
        d = r.choice([1, 2, 2, 2, 3, 3, 3, 4, 5])
        N = r.choice([1, 2, 3, 5, 8, 9, 14, 25])
        span = r.choice([2, 4, 9, 40, 1000])
        lo = r.choice([0, -3, -span, 17])
        stretch = [r.choice([1., 1., .5, .3, 0.]) for _ in range(d)]
        if d > 3:
            stretch = [1., r.choice([1., .5])] + [.4, .2, 0.][5 - d:]
            r.shuffle(stretch)
        X = [[lo + int(r.randint(0, span) * s) for s in stretch]
             for _ in range(N)]
        if r.random() < .3:
            X = [list(t) for t in sorted(set(map(tuple, X)))]
        if r.random() < .3:
            q = r.randint(1, 2)
            X = X + [list(r.choice(X)) for _ in range(q)]
        ext = [max(x[k] for x in X) - min(x[k] for x in X) for k in range(d)]
        L = max(ext)
        m = r.choice([1, 2, 2, 3, 4, 5, 7]) if d < 3 else r.choice(
            [1, 2, 2, 3]) if d == 3 else 2
        if sum(L and e * m > L for e in ext) > 3:     # too many cells
            continue
        boxes = 1
        for e in ext:
            boxes *= 1 if e == 0 else -(-e * m // L)
        if boxes > (27 if d == 3 else 60):
            continue
        if op == 'cover' and d == 3 and boxes > 12 and r.random() < .8:
            continue
        w = r.choice([1, 2, 3, max(1, span // 10), max(1, span // 3),
                      max(1, span)])
        scale = r.choice([1, 2, 8, 64, 10, 1000, 3])
        yield {'op': op, 'X': X, 'm': m, 'w': w, 'scale': scale,
               'int': scale == 1 and r.random() < .5}


def fine(r):
    """Coordinates of up to 28 bits, many next to a face of a box."""
    d, m = r.choice([(1, 2), (2, 2), (1, 4), (2, 1), (2, 3), (1, 3)])
    side = r.randint(1, 2 ** 26 // m)
    L = m * side
    lo = [r.choice([0, -1, 1]) * r.randint(0, 2 ** 27) for _ in range(d)]
    w = 2 * r.choice([1, 5, r.randint(1, side), side, side // 2 + 1])

    def at(k):
        v = r.choice([0, L, side * r.randint(0, m), r.randint(0, L),
                      side * r.randint(0, m)
                      + r.choice([-1, 1]) * (w // 2) + r.randint(-1, 1)])
        return lo[k] + min(max(v, 0), L)
    X = [[at(k) for k in range(d)] for _ in range(r.randint(2, 12))]
    X += [list(lo), [v + L for v in lo]]
    r.shuffle(X)
    return {'X': X, 'm': m, 'w': w, 'scale': 2 ** r.choice([0, 10, 27, 40]),
            'int': 0}


def record(c):
    import numpy as np
    from permaviss.covers import cubical_cover as cc
    op = c['op']
    if op == 'next':
        pos, div = list(c['pos']), list(c['div'])
        if len(pos) % 2:
            pos = np.array(pos)
        res, exc = call(cc.next_hypercube, pos, div)
        if list(div) != c['div']:
            raise Malformed('div was modified')
        return {'op': op, 'pos': c['pos'], 'div': c['div'], 'exc': exc,
                'out': [i_(v) for v in pos]}
    if op == 'nerve':
        ev = {'op': op, 'div': c['div']}
        N, ev['exc'] = call(cc.nerve_hypercube_cover, list(c['div']))
        if not ev['exc']:
            ev['nerve'] = levels(N)
        return ev
    if op == 'inter':
        reg = [np.array(x) for x in c['regions']]
        out, exc = call(cc.intersection_covers, reg, np.array(c['spx'], float))
        return {'op': op, 'regions': c['regions'], 'spx': c['spx'],
                'exc': exc, 'out': [i_(v) for v in out] if not exc else []}
    s = c['scale']
    X = np.array(c['X'], int if c['int'] else float)
    if not c['int']:
        X = X / s
    w = c['w'] / (1. if c['int'] else float(s))
    ev = {'op': op, 'X': c['X'], 'm': c['m'], 'w': c['w'],
          'exact': is_exact(c)}
    keep = X.copy()
    if op == 'corners':
        res, ev['exc'] = call(cc.corners_hypercube, X)
        if not ev['exc']:
            ev['lo'] = [near(v, s, c['int']) for v in res[0]]
            ev['hi'] = [near(v, s, c['int']) for v in res[1]]
        return ev
    res, ev['exc'] = call(cc.generate_cover, c['m'], w, X)
    if ev['exc']:
        return ev
    if not np.array_equal(X, keep):
        raise Malformed('the point cloud was modified')
    pc, IN, nerve = res
    ev['nerve'] = levels(nerve)
    ev['pts'] = [[[i_(v, 'point') for v in cell] for cell in lev]
                 for lev in IN]
    ev['xyz'] = [[[[near(v, s, c['int']) for v in x] for x in cell]
                  for cell in lev] for lev in pc]
    return ev


def is_exact(c):
    """Box corners are computed without rounding."""
    s = 1 if c['int'] else c['scale']
    if s & (s - 1):
        return False
    k = len(c['X'][0])
    L = max(max(x[i] for x in c['X']) - min(x[i] for x in c['X'])
            for i in range(k))
    from fractions import Fraction
    q = Fraction(L, c['m']).denominator
    return q & (q - 1) == 0


def near(v, s, isint):
    f = float(v) * (1 if isint else s)
    if abs(f - round(f)) > 1e-6:
        raise Malformed('coordinate %r is not one of the cloud' % v)
    return int(round(f))


def levels(nerve):
    n = i_(nerve[0], 'number of regions')
    out = [[[i] for i in range(n)]]
    for lev in nerve[1:]:
        out.append([[i_(v, 'region') for v in s] for s in lev])
    while out and not out[-1]:
        out.pop()
    return out


def check(run):
    beh = run.behaviours('Cover')
    beh += run.behaviours('Cover', cfg='Cover_three', name='Cover_three')
    if run.tier == 'thorough':
        beh += run.behaviours('Cover', cfg='Cover_line', name='Cover_line')
        beh += run.behaviours('Cover', cfg='Cover_deep', name='Cover_deep')
    else:
        k = 1 + len(beh) // 1000
        beh = beh[run.seed % k::k]
    run.judge('TraceCover', run.drive(run.save('cover.ndjson', beh)),
              name='TraceCover(model inputs)')
    run.judge('TraceCover', run.drive())
    run.assumptions = [
        'positive overlap, at least one point',
        'points exactly on a face of a box are judged only where the corners '
        'of boxes are computed without rounding']
    return run.finish(rule='every cloud of up to three points of a small '
                      'lattice, then integer, dyadic and decimal clouds up '
                      'to dimension three; every small grid')
