"""C05: the Vietoris-Rips complex."""
from harness import gen, simp
from harness.core import call, i_, Malformed

COUNT = {'quick': 1500, 'thorough': 30000}


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            sc = [1.0, 0.1, 0.7][n % 3]
            yield {'op': 'rips', 'W': [[x * sc for x in row]
                                       for row in b['w']],
                   'maxr': b['maxr'] * sc, 'maxdim': b['maxdim'], 'must': 1}
        return
    r = gen.rng('C05', seed, 'main')
    for k in [140, 270] if tier == 'quick' else [66, 130, 140, 257, 270, 300]:
        yield {'op': 'rips', 'W': simp.sparse_dist(r, k), 'must': 1,
               'maxr': r.choice([3., 4.5]), 'maxdim': r.choice([2, 3]),
               'name': 'rips-sparse-%d' % k}
    n = 0
    while n < COUNT[tier]:
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11])
        kind, W = simp.rand_dist(r, k)
        maxr = simp.pick_maxr(r, W)
        if r.random() < .03:
            maxr = float('inf')
        md = r.choice([-1, 0, 1, 2, 2, 3, 3, 4, 5])
        c = simp.count_simplices(W, maxr, max(1, md))
        if sum(c) > 300:
            continue
        n += 1
        yield {'op': 'rips', 'W': W, 'maxr': maxr, 'maxdim': md,
               'name': 'rips-%d-%s' % (n, kind)}


def record(c):
    import numpy as np
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    W = c['W']
    rk = simp.Ranks([x for row in W for x in row] + [c['maxr']])
    A = np.array(W, dtype=float).reshape(len(W), len(W))
    keep = A.copy()
    ev = {'op': 'rips', 'n': len(W), 'w': [[rk(x) for x in row] for row in W],
          'maxr': rk(c['maxr']), 'maxdim': c['maxdim']}
    out, ev['exc'] = call(vietoris_rips, A, c['maxr'], c['maxdim'])
    if ev['exc']:
        return ev
    if not isinstance(out, tuple) or len(out) != 2:
        raise Malformed('expected C, R')
    C, R = out
    if not np.array_equal(A, keep):
        raise Malformed('the distance matrix was modified')
    ev['c0'] = i_(C[0])
    ev['r0'] = [rk(x) for x in R[0]]
    ev['C'] = [simp.level(x, 'simplex') for x in C[1:]]
    ev['R'] = [[rk(x) for x in lev] for lev in R[1:]]
    return ev


def check(run):
    beh = run.behaviours('PHClassic')
    if run.tier == 'thorough':
        for c in ('PHClassic_deep', 'PHClassic_five'):
            beh += run.behaviours('PHClassic', cfg=c, name=c)
    seen, inp = set(), []
    for b in beh:
        if str(b['w']) + str(b['maxr']) not in seen:
            seen.add(str(b['w']) + str(b['maxr']))
            inp.append(b)
    run.judge('TraceSimp', run.drive(run.save('vr.ndjson', inp)),
              name='TraceSimp(model inputs)')
    run.judge('TraceSimp', run.drive())
    run.assumptions = ['the distance matrix is symmetric, non negative, with '
                       'zero diagonal']
    return run.finish(rule='every weighted graph within the model constants, '
                      'then random distance matrices (ties, zeros, metric or '
                      'not), thresholds on and between distances, dimensions '
                      '-1 to 5, sparse matrices with up to 270 points')
