"""C07: boundary operators."""
from harness import gen, simp
from harness.core import call, Malformed

COUNT = {'quick': 1200, 'thorough': 15000}


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield {'op': 'bnd', 'n': b['n'], 'flag': b['edges'],
                   'maxdim': 1 + n % b['maxdim'], 'must': 1,
                   'p': gen.SMALL[n % 4], 'kind': 0}
        return
    r = gen.rng('C07', seed, 'main')
    for k in [140, 270] if tier == 'quick' else [66, 130, 140, 257, 270, 300]:
        yield {'op': 'bnd', 'n': k, 'C': simp.clique_levels(
            k, simp.sparse_graph(r, k), 3), 'p': r.choice(gen.PRIMES),
               'kind': 0, 'must': 1}
    # few simplices between vertices with large labels
    for k, m in [(2500, 6), (40000, 4)]:
        lab = sorted(r.sample(range(k), m - 1) + [k - 1])
        C = simp.clique_levels(m, [(a, b) for b in range(m)
                                   for a in range(b)], 3)
        yield {'op': 'bnd', 'n': k, 'C': [[[lab[v] for v in s] for s in L]
                                          for L in C],
               'p': r.choice(gen.PRIMES), 'kind': 0, 'must': 1}
    for n in range(COUNT[tier]):
        p = gen.pick_prime(r, big=True)
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        top = r.randint(1, 5)
        yield {'op': 'bnd', 'n': k, 'C': simp.rand_complex(r, k, top),
               'p': p, 'kind': r.randrange(3)}


def record(c):
    import numpy as np
    from permaviss.simplicial_complexes.differentials import \
        complex_differentials
    from permaviss.simplicial_complexes.flag_complex import flag_complex
    n, p = c['n'], c['p']
    if 'flag' in c:     # through the flag complex of the library
        e = sorted(c['flag'])
        K = flag_complex(np.array(e), n, c['maxdim'])
        C = [simp.level(x, 'simplex') for x in K[1:]]
    else:
        C = c['C']
        K = simp.as_levels(n, C, c['kind'])
    D, exc = call(complex_differentials, K, p)
    if exc:
        return {'op': 'bnd', 'n': n, 'C': C, 'p': p, 'exc': exc}
    return simp.rec_bnd(n, C, p, D)


def check(run):
    beh = run.behaviours('Flag')
    if run.tier == 'thorough':
        beh += run.behaviours('Flag', cfg='Flag_deep', name='Flag_deep')
    run.judge('TraceSimp', run.drive(run.save('bnd.ndjson', beh)),
              name='TraceSimp(model inputs)')
    run.judge('TraceSimp', run.drive())
    run.assumptions = ['simplices are written with increasing vertices; the '
                       'complex has at least dimension 1']
    return run.finish(rule='every flag complex on 5 (thorough: 6) vertices, '
                      'then random simplicial complexes, lists of simplices '
                      'in any order, primes up to 10^6, sparse complexes with up '
                      'to 270 vertices')
