"""C02: Gaussian elimination by columns."""
from harness import gen
from harness.core import call, imat, Malformed

COUNT = {'quick': 5000, 'thorough': 60000}
BIGN = {'quick': 24, 'thorough': 200}


def cases(seed, tier, extra):
    if extra:
        for b in gen.load(extra):
            yield {'op': 'gauss', 'A': b['A'], 'p': b['p'], 'low': b['low'],
                   'must': 1, 'name': 'model A=%s p=%d' % (b['A'], b['p'])}
        return
    r = gen.rng('C02', seed, 'main')
    for m, k in [(10, 140), (140, 10), (3, 270), (270, 4), (45, 45)] + (
            [] if tier == 'quick' else [(70, 70), (100, 90), (5, 300)]):
        p = r.choice(gen.SMALL)
        yield {'op': 'gauss', 'A': gen.any_mat(r, m, k, p), 'p': p,
               'dt': r.choice(['float', 'int']), 'must': 1,
               'name': 'large-%dx%d' % (m, k)}
    for n in range(COUNT[tier]):
        p = gen.pick_prime(r)
        m, k = r.randint(1, 7), r.randint(1, 8)
        if r.random() < .04:
            p = r.choice([1009, 4093, 46337])
        if r.random() < .05:
            m, k = r.randint(1, 3), r.randint(8, 16)
        if r.random() < .05:
            m, k = r.randint(8, 16), r.randint(1, 5)
        dt = r.choice(['float', 'int', 'int32'])
        if r.random() < .04:
            p, dt = r.choice(gen.BIG[3:]), r.choice(['float', 'int'])
        yield {'op': 'gauss', 'A': gen.any_mat(r, m, k, p), 'p': p, 'dt': dt}
    for n in range(BIGN[tier]):
        p = r.choice(gen.SMALL)
        m, k = r.randint(15, 32), r.randint(15, 32)
        yield {'op': 'gauss', 'A': gen.any_mat(r, m, k, p), 'p': p,
               'dt': 'float'}


def record(c):
    import numpy as np
    from permaviss.gauss_mod_p.gauss_mod_p import gauss_col
    p = c['p']
    A = np.array(c['A'], dtype=c.get('dt', 'float'))
    A0 = A.copy()
    m, n = A.shape
    ev = {'op': 'gauss', 'A': c['A'], 'm': m, 'n': n, 'p': p}
    out, ev['exc'] = call(gauss_col, A, p)
    ev['pure'] = bool(np.array_equal(A, A0))
    if not ev['exc']:
        try:
            R, T = out
        except Exception:
            raise Malformed('gauss_col did not return a pair')
        ev['R'], ev['T'] = imat(R, m, n, 'R'), imat(T, n, n, 'T')
        if 'low' in c:   # the pivot of every column is determined by A
            low = [max([i + 1 for i in range(m) if ev['R'][i][j] % p] or [0])
                   for j in range(n)]
            ev['lowok'] = (low == c['low'])
    return ev


def check(run):
    beh = run.behaviours('GaussCol', cfg='GaussCol')
    if run.tier == 'thorough':
        beh += run.behaviours('GaussCol', cfg='GaussCol_deep',
                              name='GaussCol_deep')
        run.design('GaussCol', cfg='GaussCol_wide', name='GaussCol_wide')
    ev = run.drive(run.save('gauss.ndjson', beh))
    run.judge('TraceGauss', ev, name='TraceGauss(model inputs)')
    for e in ev:
        if e.get('lowok') is False:
            run.fail('replay-pivots-differ-from-model', e, 'GaussCol')
    run.judge('TraceGauss', run.drive())
    run.assumptions = ['entries of the matrix are given reduced modulo p',
                       'at least one row']
    return run.finish(rule='all matrices of the model configuration, then '
                      'random full/low rank matrices up to 45x45, 270x4 and '
                      '3x270')
