"""C08: classical persistent homology."""
from harness import gen, simp
from harness.core import call, Malformed

COUNT = {'quick': 900, 'thorough': 12000}
CASE_LIMIT = 90


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            sc = [1.0, 0.1, 0.7][n % 3]
            yield {'op': 'hom', 'W': [[x * sc for x in row]
                                      for row in b['w']],
                   'maxr': b['maxr'] * sc, 'maxdim': b['maxdim'],
                   'p': b['p'], 'must': 1, 'bars': b['bars'], 'sc': sc}
        return
    r = gen.rng('C08', seed, 'main')
    for k in [70, 135] if tier == 'quick' else [66, 130, 150, 200, 260]:
        yield {'op': 'hom', 'W': simp.sparse_dist(r, k), 'must': 1,
               'maxr': r.choice([3., 4.25]), 'maxdim': 2,
               'p': r.choice(gen.SMALL), 'name': 'rips-sparse-%d' % k}
    n = 0
    while n < COUNT[tier]:
        p = gen.pick_prime(r)
        if r.random() < .02:
            p = r.choice(gen.BIG)
        n += 1
        if r.random() < .35:    # any filtered simplicial complex
            k = r.randint(1, 8)
            C = simp.rand_complex(r, k, r.randint(1, 4))
            if r.random() < .08:    # with torsion
                k, C = simp.known_complex(r)
                p = r.choice([2, 3, 3, 5])
            hi = r.randint(1, 6)
            rad = {}
            for lev in C:
                for s in lev:
                    m = max([rad[tuple(s[:i] + s[i + 1:])]
                             for i in range(len(s))] if len(s) > 2 else [0])
                    rad[tuple(s)] = min(hi, m + r.choice([0, 0, 1, 1, 2]))
            C = [sorted(lev, key=lambda s: rad[tuple(s)]) for lev in C]
            yield {'op': 'hom', 'n': k, 'C': C, 'p': p,
                   'R': [[rad[tuple(s)] for s in lev] for lev in C],
                   'maxr': hi + r.choice([.5, 1]), 'sc': 1.0,
                   'name': 'filtered-%d' % n}
            continue
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
        kind, W = simp.rand_dist(r, k)
        maxr = simp.pick_maxr(r, W)
        md = r.choice([1, 2, 2, 3, 3, 4])
        c = simp.count_simplices(W, maxr, md)
        if sum(c) > 160 or maxr <= 0:
            continue
        yield {'op': 'hom', 'W': W, 'maxr': maxr, 'maxdim': md, 'p': p,
               'name': 'rips-%d-%s' % (n, kind)}


def record(c):
    import numpy as np
    from permaviss.simplicial_complexes.differentials import \
        complex_differentials
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    from permaviss.persistence_algebra.PH_classic import persistent_homology
    from harness import pers
    p, maxr = c['p'], c['maxr']
    if 'W' in c:
        W = c['W']
        rk = simp.Ranks([x for row in W for x in row] + [maxr])
        K, R = vietoris_rips(np.array(W, dtype=float).reshape(
            len(W), len(W)), maxr, c['maxdim'])
    else:
        rk = simp.Ranks([x for lev in c['R'] for x in lev] + [maxr])
        K = simp.as_levels(c['n'], c['C'])
        R = [np.zeros(c['n'])] + [np.array(x, dtype=float) for x in c['R']]
    D = complex_differentials(K, p)
    sizes = [len(x) for x in R]
    cols = [pers.columns(D[k], sizes[k - 1], sizes[k], 'D')
            for k in range(1, len(D))]
    RR = [[rk(x) for x in lev] for lev in R]
    out, exc = call(persistent_homology, D, R, maxr, p)
    if exc:
        return {'op': 'hom', 'R': RR, 'D': cols, 'maxr': rk(maxr), 'p': p,
                'exc': exc}
    ev = simp.rec_hom(RR, cols, sizes, rk(maxr), p, out, rk, rk)
    if 'bars' in c:
        want = [sorted([rk(x * c['sc']) for x in b] for b in lev)
                for lev in c['bars']]
        ev['replay_ok'] = [sorted(x) for x in ev['hb']] == want
    return ev


def check(run):
    beh = run.behaviours('PHClassic')
    if run.tier == 'thorough':
        for c in ('PHClassic_deep', 'PHClassic_five'):
            beh += run.behaviours('PHClassic', cfg=c, name=c)
    ev = run.drive(run.save('ph.ndjson', beh))
    for e in ev:
        if e.get('replay_ok') is False:
            run.fail('replay-barcodes-differ-from-model', e, 'PHClassic')
    run.judge('TraceSimp', ev, name='TraceSimp(model inputs)')
    run.judge('TraceSimp', run.drive())
    run.assumptions = ['simplices sorted by radius within each dimension, '
                       'every simplex born before the maximum radius']
    return run.finish(rule='every weighted graph on 4 vertices within the '
                      'model constants, then random Rips filtrations and '
                      'random filtered complexes, sparse Rips filtrations with '
                      'up to 135 points')
