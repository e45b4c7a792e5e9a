"""C06: the flag complex of a graph."""
from harness import gen, simp
from harness.core import call, i_, Malformed

COUNT = {'quick': 1500, 'thorough': 20000}


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            e = [list(x) for x in b['edges']]
            if n % 3 == 1:
                e = [x[::-1] if i % 2 else x for i, x in enumerate(e)]
            if n % 3 == 2:
                e = e[::-1]
            yield {'op': 'flag', 'n': b['n'], 'edges': e,
                   'maxdim': b['maxdim'] - n % 2, 'must': 1,
                   'inc': n % 3 != 1, 'kind': n % 2}
        return
    r = gen.rng('C06', seed, 'main')
    for k in [140, 270] if tier == 'quick' else [66, 130, 140, 257, 270, 400]:
        e = [list(x) for x in simp.sparse_graph(r, k)]
        r.shuffle(e)
        yield {'op': 'flag', 'n': k, 'edges': e, 'inc': True, 'must': 1,
               'maxdim': r.choice([2, 3]), 'kind': r.randrange(2)}
    # few edges between vertices with large labels
    for k in [3000, 70000, 1000003] * (1 if tier == 'quick' else 10):
        for m in (6, 13):
            lab = r.sample(range(k), m - 1) + [k - 1]
            e = [[a, b] for a in lab for b in lab
                 if a < b and r.random() < .6]
            r.shuffle(e)
            yield {'op': 'flag', 'n': k, 'edges': e, 'inc': True, 'must': 1,
                   'maxdim': r.choice([3, 4]), 'kind': r.randrange(2)}
    for n in range(COUNT[tier]):
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 14])
        d = r.choice([.2, .5, .8, 1.0]) if k < 9 else r.choice([.2, .4])
        e = [[a, b] for b in range(k) for a in range(b) if r.random() < d]
        inc = r.random() < .5
        r.shuffle(e)
        if not inc:
            e = [x[::-1] if r.random() < .5 else x for x in e]
        yield {'op': 'flag', 'n': k, 'edges': e, 'inc': inc,
               'maxdim': r.choice([-2, -1, 0, 1, 2, 3, 4, 5]),
               'kind': r.randrange(2)}


def record(c):
    import numpy as np
    from permaviss.simplicial_complexes.flag_complex import flag_complex
    G = np.array(c['edges'], dtype=float if c['kind'] else int)
    if not c['edges'] and c['kind']:
        G = np.zeros((0, 2))
    keep = G.copy()
    ev = {'op': 'flag', 'n': c['n'], 'edges': c['edges'], 'inc': c['inc'],
          'maxdim': c['maxdim']}
    C, ev['exc'] = call(flag_complex, G, c['n'], c['maxdim'])
    if ev['exc']:
        return ev
    if not np.array_equal(G, keep):
        raise Malformed('the graph was modified')
    if c['maxdim'] < 0:
        return ev
    ev['c0'] = i_(C[0])
    ev['C'] = [simp.level(x, 'simplex') for x in C[1:]]
    return ev


def check(run):
    beh = run.behaviours('Flag')
    if run.tier == 'thorough':
        beh += run.behaviours('Flag', cfg='Flag_deep', name='Flag_deep')
    run.judge('TraceSimp', run.drive(run.save('flag.ndjson', beh)),
              name='TraceSimp(model inputs)')
    run.judge('TraceSimp', run.drive())
    run.assumptions = ['a simple graph: no loops, each edge listed once']
    return run.finish(rule='every graph on 5 (thorough: 6) vertices, then '
                      'random graphs up to 14 vertices with edges in any '
                      'order and orientation, sparse graphs with up to 270 '
                      'vertices, few edges between labels up to 10^6')
