"""C20: image in a broken barcode basis (resolution of the extension)."""
from harness import gen, pers
from harness.core import call, Malformed

COUNT = {'quick': 6000, 'thorough': 80000}


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield {'bars': b['bars'], 'bd': b['bd'], 'p': b['p'],
                   'maxr': b['maxr'], 'kind': n % len(pers.SCALES),
                   'must': 1, 'want': b['out'], 'given': n % 4}
        return
    r = gen.rng('C20', seed, 'main')
    for n in range(COUNT[tier]):
        p = gen.pick_prime(r) if r.random() < .98 else r.choice(gen.BIG)
        k = r.randint(1, 10)
        hi = r.randint(3, 10)
        if n < 12:
            k, hi = [(20, 8), (35, 6), (12, 30), (70, 5)][n % 4]
        maxr = hi + r.choice([0, 0, 2])
        bars = [sorted(r.sample(range(hi + 1), 2)) for _ in range(k)]
        lev = [r.randrange(r.randint(1, 4)) for _ in range(k)]
        bd = [[0] * k for _ in range(k)]      # bd[i]: column of generator i
        for i in range(k):
            if lev[i] == 0:
                continue
            for j in range(k):
                if j != i and lev[j] <= lev[i] and bars[j][0] <= bars[i][
                        1] < bars[j][1] and r.random() < .6:
                    bd[i][j] = r.randrange(p)
        yield {'bars': bars, 'bd': bd, 'p': p, 'maxr': maxr,
               'kind': r.randrange(len(pers.SCALES)),
               'given': r.choice([0, 0, 0, 1, 2, 3])}


def record(c):
    import numpy as np
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    rad = pers.Radii(c['kind'])
    n, p = len(c['bars']), c['p']
    bd = np.array(c['bd'], dtype=float).T
    diag = barcode_basis(rad.bars(c['bars']))
    ds = barcode_basis(rad.bars(c['bars']), broken_basis=True,
                       broken_differentials=bd)
    M = np.identity(n)
    if not c.get('given', 0) & 1:       # otherwise in the order given
        M = M[:, diag.sort(send_order=True)]
    if not c.get('given', 0) & 2:
        M = M[ds.sort(send_order=True)]
    diag.barcode[:, 1] = rad.f(c['maxr'])
    ev = {'op': 'broken', 'bars': c['bars'], 'bd': c['bd'], 'p': p,
          'maxr': c['maxr']}
    out, ev['exc'] = call(image_kernel, diag, ds, M, p)
    if ev['exc']:
        return ev
    if not isinstance(out, tuple) or len(out) != 2:
        raise Malformed('expected Im, PreIm')
    ev['rb'] = rad.unbar(out[0].barcode, 'result')
    if 'want' in c:
        ev['replay_ok'] = sorted(ev['rb']) == sorted(c['want'])
    return ev


def check(run):
    deep = run.tier == 'thorough'
    beh = run.behaviours('Extension', cfg='Extension' + (
        '_deep' if deep else ''))
    ev = run.drive(run.save('ext.ndjson', beh))
    for e in ev:
        if e.get('replay_ok') is False:
            run.fail('replay-barcode-differs-from-model', e, 'Extension')
    run.judge('TracePersist', ev, name='TracePersist(model inputs)')
    run.judge('TracePersist', run.drive())
    run.assumptions = ['a dying generator is expressed in generators alive '
                       'at its death']
    return run.finish(rule='all broken bases within the model constants, '
                      'then random ones with up to 10 bars')
