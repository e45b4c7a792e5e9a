"""C10: image, kernel and preimages of a persistence morphism."""
from harness import gen, pers
from harness.core import call, Malformed

COUNT = {'quick': 7000, 'thorough': 90000}


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield {'op': 'ik', 'A': b['A'], 'B': b['B'], 'F': b['F'],
                   'p': b['p'], 'kind': n % len(pers.SCALES), 'must': 1,
                   'im': b['im'], 'ker': b['ker'], 'sorted': n % 2}
        return
    # inputs of the defects repaired in /repo
    yield {'op': 'ik', 'A': [[0, 6], [0, 5], [1, 3], [2, 4]],
           'B': [[0, 2]], 'F': [[2, 2, 2, 0]], 'p': 5, 'kind': 0,
           'sorted': 0, 'must': 1, 'name': 'fixed-1'}
    yield {'op': 'ik', 'A': [[0, 3], [0, 3]], 'B': [[0, 3]],
           'F': [[1, 1]], 'p': 46337, 'kind': 0, 'sorted': 0, 'must': 1,
           'name': 'fixed-5'}
    r = gen.rng('C10', seed, 'main')
    for na, nb, hi in [(70, 4, 6), (4, 70, 6), (130, 3, 5), (3, 130, 5),
                       (20, 20, 9), (14, 14, 25), (30, 25, 6), (10, 9, 40)]:
        for srt in (0, 1):
            p = gen.pick_prime(r)
            A = pers.rand_bars(r, na, hi, srt)
            B = pers.rand_bars(r, nb, hi, srt)
            yield {'op': 'ik', 'A': A, 'B': B, 'p': p,
                   'F': pers.rand_morphism(r, A, B, p), 'must': 1,
                   'kind': r.randrange(len(pers.SCALES)), 'sorted': srt,
                   'name': 'large-%d-%d-%d' % (na, nb, hi)}
    for n in range(COUNT[tier]):
        p = gen.pick_prime(r)
        if r.random() < .02:
            p = r.choice(gen.BIG)
        x = r.random()
        lim = 5 if x < .8 else 8 if x < .98 else 12
        na, nb = r.randint(1, lim), r.randint(1, lim)
        hi = r.randint(3, 9)
        srt = r.random() < .5
        A = pers.rand_bars(r, na, hi, srt)
        B = pers.rand_bars(r, nb, hi, srt)
        yield {'op': 'ik', 'A': A, 'B': B,
               'F': pers.rand_morphism(r, A, B, p), 'p': p,
               'kind': r.randrange(len(pers.SCALES)),
               'sorted': int(r.random() < .5)}


def record(c):
    import numpy as np
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    rad = pers.Radii(c['kind'])
    A, B = barcode_basis(rad.bars(c['A'])), barcode_basis(rad.bars(c['B']))
    Ab, Bb, F = c['A'], c['B'], c['F']
    if c['sorted']:     # bases that know they are sorted
        oa, ob = A.sort(send_order=True), B.sort(send_order=True)
        Ab, Bb = [Ab[i] for i in oa], [Bb[i] for i in ob]
        F = [[F[i][j] for j in oa] for i in ob]
    m, n = len(Bb), len(Ab)
    ev = {'op': 'ik', 'A': Ab, 'B': Bb, 'F': F, 'p': c['p']}
    out, ev['exc'] = call(image_kernel, A, B, np.array(F, dtype=float),
                          c['p'])
    if ev['exc']:
        return ev
    if not isinstance(out, tuple) or len(out) != 3:
        raise Malformed('expected Im, Ker, PreIm')
    Im, Ker, Pre = out
    ev['ib'], ev['kb'] = rad.unbar(Im.barcode, 'Im'), rad.unbar(
        Ker.barcode, 'Ker')
    ev['ic'], ev['kc'] = pers.coords(Im, m, 'Im'), pers.coords(Ker, n, 'Ker')
    ev['pre'] = pers.columns(Pre, n, len(ev['ib']), 'PreIm') if len(
        ev['ib']) else []
    if 'im' in c:
        ev['replay_ok'] = (sorted(ev['ib']) == sorted(c['im']) and
                           sorted(ev['kb']) == sorted(c['ker']))
    return ev


def check(run):
    deep = run.tier == 'thorough'
    beh = run.behaviours('ImageKernel')
    if deep:
        beh += run.behaviours('ImageKernel', cfg='ImageKernel_deep',
                              name='ImageKernel_deep')
    ev = run.drive(run.save('ik.ndjson', beh))
    for e in ev:
        if e.get('replay_ok') is False:
            run.fail('replay-barcodes-differ-from-model', e, 'ImageKernel')
    run.judge('TracePersist', ev, name='TracePersist(model inputs)')
    run.judge('TracePersist', run.drive())
    run.assumptions = ['the matrix is a well defined persistence morphism']
    return run.finish(rule='every morphism between sorted barcodes within '
                      'the model constants (replayed, judged), then random '
                      'morphisms up to 12 bars, unsorted and sorted bases')
