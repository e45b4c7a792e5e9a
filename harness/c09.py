"""C09: barcode basis objects."""
from harness import gen, pers
from harness.core import call, i_, ivec, imat, Malformed

COUNT = {'quick': 3000, 'thorough': 40000}


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            k = len(b['bars'])
            yield {'bars': b['bars'], 'coord': None, 'bd': b['bd'],
                   'p': b['p'], 'kind': n % len(pers.SCALES), 'noise': 0,
                   'M': [b['v']], 'radii': [b['r']], 'must': 1,
                   'early': n % 2}
        return
    r = gen.rng('C09', seed, 'main')
    for n in range(COUNT[tier]):
        p = gen.pick_prime(r)
        k, hi = r.randint(1, 8), r.randint(2, 9)
        if n < 16:
            k, hi = r.choice([20, 40, 70, 140]), r.choice([9, 40, 60])
        bars = []
        for _ in range(k):
            a, b = r.randrange(hi), r.randrange(hi)
            if r.random() < .8:
                a, b = min(a, b), max(a, b)
            bars.append([a, b])
        c = {'bars': bars, 'p': p, 'kind': r.randrange(len(pers.SCALES)),
             'noise': int(r.random() < .2), 'coord': None, 'bd': None,
             'radii': [r.randrange(hi + 1) for _ in range(3)],
             'early': int(r.random() < .5), 'bad': r.random() < .1}
        if r.random() < .1:     # below the sorting precision: not sorted
            c.update(kind='fine', noise=0, early=1)
        x = r.random()
        if x < .4:
            m = r.randint(1, 5)
            c['coord'] = [[r.randrange(p) for _ in range(m)]
                          for _ in range(k)]
        elif x < .8:
            g = sum(1 for a, b in bars if a < b)
            c['bd'] = [[r.randrange(p) if r.random() < .6 else 0
                        for _ in range(g)] for _ in range(g)]
            c['M'] = [[r.randrange(p) for _ in range(g)]
                      for _ in range(r.randint(1, 4))]
        yield c


def record(c):
    import numpy as np
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    rad = pers.Radii(c['kind'])
    raw = rad.bars(c['bars'])
    p = c['p']
    noise = np.zeros(raw.shape)
    if c['noise']:      # differences below the sorting precision
        noise = ((np.arange(raw.size).reshape(raw.shape) * 7) % 5) * 1e-10
        # equal ends stay equal so that no new bars appear
        for k, (a, b) in enumerate(c['bars']):
            if a == b:
                noise[k] = 0

    def unbar(bc):
        if not c['noise']:
            return rad.unbar(bc, 'basis')
        vals = sorted(rad.back)
        out = []
        for x in np.asarray(bc, dtype=float).reshape(-1, 2).tolist():
            near = [min(vals, key=lambda v: abs(v - y)) for y in x]
            if any(abs(u - y) > 1e-8 for u, y in zip(near, x)):
                raise Malformed('bar %r is none of the given ones' % x)
            out.append([rad.back[u] for u in near])
        return out
    events = []
    kw = {}
    prev = None
    good = [b for b in c['bars'] if b[0] < b[1]]
    g = len(good)
    if c['coord'] is not None:
        m = len(c['coord'][0])
        prev = barcode_basis(np.array([[0., 1.]] * m))
        kw = {'prev_basis': prev,
              'coordinates': np.array(c['coord'], dtype=float).T}
        if c.get('bad'):
            bad = dict(kw)
            bad['coordinates'] = np.append(
                bad['coordinates'], np.zeros((1, len(c['bars']))), axis=0)
            _, e = call(barcode_basis, raw, **bad)
            events.append({'op': 'reject', 'exc': e, 'why': 'rows'})
            bad['coordinates'] = np.append(
                kw['coordinates'], np.zeros((m, 1)), axis=1)
            _, e = call(barcode_basis, raw, **bad)
            events.append({'op': 'reject', 'exc': e, 'why': 'columns'})
    if c['bd'] is not None:
        kw = {'broken_basis': True,
              'broken_differentials': np.array(
                  c['bd'], dtype=float).reshape(g, g).T}
        if c.get('bad'):
            _, e = call(barcode_basis, raw, broken_basis=True)
            events.append({'op': 'reject', 'exc': e, 'why': 'missing'})
            _, e = call(barcode_basis, raw, broken_basis=True,
                        broken_differentials=np.zeros((g + 1, g + 1)))
            events.append({'op': 'reject', 'exc': e, 'why': 'square'})
    wd = c['bd'] is None
    B, exc = call(barcode_basis, raw + noise, store_well_defined=wd, **kw)
    ev = {'op': 'new', 'exc': exc, 'bars': c['bars'],
          'hascoord': c['coord'] is not None, 'coord': c['coord'] or []}
    events.append(ev)
    if exc:
        return {'events': events}
    ev['dim'] = i_(B.dim)
    ev['got'] = unbar(B.barcode)
    ev['gotc'] = pers.coords(B, len(c['coord'][0]), 'c') if c['coord'] else []
    ev['wd'] = [int(bool(x)) for x in np.asarray(B.well_defined)] if wd \
        else []
    if not g or ev['dim'] != g:
        return {'events': events}

    def query(bars, rr):
        q = {'op': 'query', 'bars': bars, 'r': rr}
        x = rad.f(rr)
        a, e1 = call(B.active, x)
        b, e2 = call(B.birth, x)
        d, e3 = call(B.death, x)
        ch, e4 = call(B.changes_list)
        q['exc'] = e1 or e2 or e3 or e4
        if not q['exc']:
            q['active'], q['birth'], q['death'] = ivec(a), ivec(b), ivec(d)
            cl = np.asarray(ch).tolist()
            if any(v not in rad.back for v in cl):
                raise Malformed('changes_list returns no radius of a bar')
            q['changes'] = [rad.back[v] for v in cl]
        events.append(q)

    def update(bars, bd, M, rr):
        if bd is None:
            return
        X = np.array(M, dtype=float).T
        u, e = call(B.update_broken, X, rad.f(rr), p)
        q = {'op': 'update', 'bars': bars, 'bd': bd, 'M': M, 'r': rr,
             'p': p, 'exc': e}
        if not e:
            q['got'] = pers.columns(u, len(bars), len(M), 'updated')
        events.append(q)
    if c['early'] and not c['noise']:
        for rr in c['radii']:
            query(good, rr)
            update(good, c['bd'], c.get('M'), rr)
    if c['kind'] == 'fine':
        return {'events': events}
    order, exc = call(B.sort, send_order=True)
    s = {'op': 'sort', 'exc': exc, 'bars': good,
         'hascoord': c['coord'] is not None, 'broken': c['bd'] is not None}
    events.append(s)
    if exc:
        return {'events': events}
    s['order'] = ivec(order)
    s['got'] = unbar(B.barcode)
    s['coord'] = events[-2]['gotc'] if events[-2]['op'] == 'new' else [
        c['coord'][i] for i, b in enumerate(c['bars']) if b[0] < b[1]
    ] if c['coord'] else []
    s['gotc'] = pers.coords(B, len(c['coord'][0]), 'c') if c['coord'] else []
    s['bd'] = c['bd'] or []
    s['gotbd'] = pers.columns(B.broken_differentials, g, g, 'bd') if c[
        'bd'] else []
    s['flag'] = bool(B.sorted)
    if not c['noise'] and len(s['got']) == g:
        for rr in c['radii']:
            query(s['got'], rr)
            if c['bd']:
                update(s['got'], s['gotbd'], c['M'], rr)
    return {'events': events}


def check(run):
    beh = run.behaviours('BarcodeBasis', cfg='BarcodeBasis' + (
        '_deep' if run.tier == 'thorough' else ''))
    run.judge('TracePersist', run.drive(run.save('bb.ndjson', beh)),
              name='TracePersist(model inputs)')
    run.judge('TracePersist', run.drive())
    run.assumptions = ['at least one bar is given']
    return run.finish(rule='objects built from random bars (also trivial and '
                      'inverted ones), coordinates or broken differentials; '
                      'every method called before and after sorting')
