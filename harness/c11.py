"""C11: quotients and homology of chain complexes of persistence modules."""
from harness import gen, pers
from harness.core import call, Malformed, i_

COUNT = {'quick': 5000, 'thorough': 60000}


def cases(seed, tier, extra):
    yield {'op': 'chain', 'B': [[], [[0, 3]], [[0, 3]]],
           'D': [None, [], [[1]]], 'p': 2, 'kind': 0, 'sorted': 0,
           'must': 1, 'name': 'fixed-6'}
    r = gen.rng('C11', seed, 'main')
    for mx, hi in [(20, 6), (14, 15), (10, 30), (35, 5)]:
        for srt in (0, 1):
            p = gen.pick_prime(r)
            Bs, D = pers.rand_chain(r, p, 3, mx, hi)
            yield {'op': 'chain', 'B': Bs, 'D': D, 'p': p, 'must': 1,
                   'kind': r.randrange(len(pers.SCALES)), 'sorted': srt}
            B = pers.rand_bars(r, mx, hi, r.random() < .5)
            A = pers.rand_bars(r, mx // 2, hi, r.random() < .5)
            yield {'op': 'quot', 'A': A, 'B': B, 'p': p, 'must': 1,
                   'F': pers.rand_morphism(r, A, B, p),
                   'kind': r.randrange(len(pers.SCALES)), 'sorted': srt,
                   'perm': r.random()}
    for n in range(COUNT[tier]):
        p = gen.pick_prime(r) if r.random() < .98 else r.choice(gen.BIG)
        if r.random() < .6:
            L = r.choice([2, 3, 3, 4])
            Bs, D = pers.rand_chain(r, p, L, r.choice([2, 3, 4, 6, 8]),
                                    r.randint(3, 9))
            yield {'op': 'chain', 'B': Bs, 'D': D, 'p': p,
                   'kind': r.randrange(len(pers.SCALES)),
                   'sorted': int(r.random() < .5)}
        else:
            hi = r.randint(3, 9)
            B = pers.rand_bars(r, r.randint(1, 6), hi, r.random() < .5)
            A = pers.rand_bars(r, r.randint(1, 5), hi, r.random() < .5)
            yield {'op': 'quot', 'A': A, 'B': B, 'p': p,
                   'F': pers.rand_morphism(r, A, B, p),
                   'kind': r.randrange(len(pers.SCALES)),
                   'sorted': int(r.random() < .5),
                   'perm': r.random()}


def record(c):
    import numpy as np
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    from permaviss.persistence_algebra.module_persistence_homology import (
        module_persistence_homology, quotient)
    rad = pers.Radii(c['kind'])
    p = c['p']
    if c['op'] == 'quot':
        # N: image of a morphism; M: all of B, in any order of generators
        A, B = barcode_basis(rad.bars(c['A'])), barcode_basis(
            rad.bars(c['B']))
        m = len(c['B'])
        N, _, _ = image_kernel(A, B, np.array(c['F'], dtype=float), p)
        perm = sorted(range(m), key=lambda i: (i * 7919 * (1 + c[
            'perm'])) % 1.0) if c['perm'] < .5 else list(range(m))
        mb = [c['B'][i] for i in perm]
        M = barcode_basis(rad.bars(mb), B, np.identity(m)[:, perm])
        if c['sorted']:
            M.sort()
        ev = {'op': 'quot', 'B': c['B'], 'p': p,
              'nb': rad.unbar(N.barcode, 'N'), 'nc': pers.coords(N, m, 'N'),
              'mb': rad.unbar(M.barcode, 'M'), 'mc': pers.coords(M, m, 'M')}
        Q, ev['exc'] = call(quotient, M, N, p)
        if not ev['exc']:
            ev['qb'] = rad.unbar(Q.barcode, 'Q')
            ev['qc'] = pers.coords(Q, m, 'Q')
        return ev
    L = len(c['B'])
    base, Bs, D = [], [], [np.array([])]
    for d in range(L):
        b = c['B'][d]
        basis = barcode_basis(rad.bars(b)) if b else barcode_basis([])
        order = list(range(len(b)))
        if c['sorted'] and b:
            order = [int(i) for i in basis.sort(send_order=True)]
        base.append(basis)
        Bs.append([b[i] for i in order])
        if d:
            F = [[c['D'][d][i][j] for j in order] for i in prev]
            D.append(np.array(F, dtype=float).reshape(len(prev), len(b)))
        prev = order
    ev = {'op': 'chain', 'B': Bs, 'p': p, 'D': [[]] + [
        [[int(x) for x in col] for col in M.T] if M.size else
        [[0] * M.shape[0] for _ in range(M.shape[1])] for M in D[1:]]}
    out, ev['exc'] = call(module_persistence_homology, D, base, p)
    if ev['exc']:
        return ev
    if not isinstance(out, tuple) or len(out) != 3:
        raise Malformed('expected Hom, Im, PreIm')
    Hom, Im, Pre = out
    if not len(Hom) == len(Im) == len(Pre) == L:
        raise Malformed('wrong number of degrees')
    ev['hb'] = [rad.unbar(H.barcode, 'Hom') for H in Hom]
    ev['hc'] = []
    for d, H in enumerate(Hom):
        if len(ev['hb'][d]) != i_(H.dim):
            raise Malformed('Hom dim')
        if H.dim and (H.prev_basis is None or H.prev_basis.dim != len(
                Bs[d])):
            raise Malformed('Hom[%d] is not expressed in Base[%d]' % (d, d))
        ev['hc'].append(pers.coords(H, len(Bs[d]), 'Hom'))
    ev['ib'], ev['ic'], ev['pre'] = [], [], []
    for d in range(L):
        ok = d + 1 < L and Bs[d] and Bs[d + 1]
        ev['ib'].append(rad.unbar(Im[d].barcode, 'Im') if ok else [])
        ev['ic'].append(pers.coords(Im[d], len(Bs[d]), 'Im') if ok else [])
        if d and Bs[d] and Bs[d - 1] and ev['ib'][d - 1]:
            ev['pre'].append(pers.columns(Pre[d], len(Bs[d]), len(
                ev['ib'][d - 1]), 'PreIm'))
        else:
            ev['pre'].append([])
    return ev


def check(run):
    deep = run.tier == 'thorough'
    run.design('ModuleHomology', cfg='ModuleHomology' + (
        '_deep' if deep else ''))
    run.judge('TracePersist', run.drive())
    run.assumptions = ['differentials are well defined morphisms composing '
                       'to zero; N is a submodule of M']
    return run.finish(rule='random chain complexes of up to 4 modules with '
                      'up to 8 bars (also trivial ones), random quotients '
                      'by images of morphisms')
