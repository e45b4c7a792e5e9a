"""C16: representatives in the total complex, and the extension data."""
from harness import gen, mv
from harness.core import Malformed, i_
from harness.c14 import fixed_cases

COUNT = {'quick': 420, 'thorough': 4000}
BUDGET = {'quick': 10, 'thorough': 360}
CASE_LIMIT = 120
M = None


def worker_init():
    global M
    M = mv.install()


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield dict(mv.from_model(b, n), op='reps', every=1)
        return
    for c in fixed_cases():
        yield dict(c, op='reps', must=1)
    r = gen.rng('C16', seed, 'main')
    for c in [mv.longline(r, 40, 20), mv.ring(r, 24, 3), mv.ring(r, 40, 4),
              mv.longline(r, 20, 4, 3)]:
        yield dict(c, op='reps', must=1, name=c['kind'])
    for n in range(COUNT[tier]):
        c = mv.small(r)
        c.update(mv.units(r))
        if c['maxdim'] > 3 and 'thick' not in c:
            c['maxdim'] = 3
        if c['maxdim'] < 2:
            c['maxdim'] = 2
        yield dict(c, op='reps', name='%s-%d' % (c['kind'], n))


def sign(vs):
    s = 1
    for i in range(len(vs)):
        for j in range(i):
            if vs[j] > vs[i]:
                s = -s
    return s


def simplices(ss, order, a, c, b):
    """Simplices of degree b of a cell, as (sign, increasing vertices)."""
    pts = order[a][c]
    if b == 0:
        return [(1, [v]) for v in pts]
    out = []
    for s in ss.subcomplexes[a][c][b]:
        vs = [pts[i_(x)] for x in s]
        out.append((sign(vs), sorted(vs)))
    return out


def sparse(ss, order, a, b, chains, k, p):
    """Entry k of local chains at (a, b)."""
    out = []
    for c in range(len(order[a])):
        ref = [i_(x) for x in chains.ref[c]]
        if k not in ref:
            continue
        row = chains.coord[c][ref.index(k)]
        sp = simplices(ss, order, a, c, b)
        if len(row) != len(sp):
            raise Malformed('local chain of length %d, %d simplices' % (
                len(row), len(sp)))
        for x, (sg, vs) in zip(row.tolist(), sp):
            v = (sg * i_(x)) % p
            if v:
                out.append([a, c + 1, vs, v])
    return out


def record(c):
    try:
        ss, lv, cells, args = mv.run(c, M)
    except mv.Skip:
        return {'events': []}
    top, p, R = c['maxdim'], c['p'], int(ss.no_pages)
    order = [[[i_(v) for v in pts] for pts in ss.points_IN[a]]
             for a in range(len(cells))]
    events = []
    for m in range(1, top):
        cls, first = [], {}
        for r in range(R, 1, -1):
            for a in range(min(m, len(cells) - 1) + 1):
                b = m - a
                H = ss.Hom[r - 1][a][b]
                bars = lv.bars(H)
                if not bars:
                    continue
                reps = ss.Hom_reps[r - 1][a][b]
                if r == R:
                    first[a] = len(cls) + 1
                for k, bar in enumerate(bars):
                    v = []
                    for j, ch in enumerate(reps):
                        v += sparse(ss, order, a - j, b + j, ch, k, p)
                    ext = []
                    if r == R:
                        for j, E in enumerate(ss.extensions[a][b]):
                            if j == 0 or len(E) == 0:
                                continue
                            for i in range(len(E)):
                                x = i_(E[i][k]) % p
                                if x:
                                    ext.append([first[a - j] + i, x])
                    cls.append({'a': a, 'r': r, 'b': bar[0], 'd': bar[1],
                                'v': v, 'last': int(r == R), 'ext': ext})
        if not cls or not any(x['a'] for x in cls) and m > 1:
            continue
        events.append({
            'op': 'reps', 'n': len(lv.w), 'w': lv.w, 'maxr': lv.maxr,
            'top': top, 'p': p, 'cells': cells, 'm': m, 'cls': cls})
    return {'events': events}


def check(run):
    deep = run.tier == 'thorough'
    inp = mv.model_inputs(run, ['MVPages_d2'] + deep * ['MVPages_one'], 240)
    run.judge('TraceMV', run.drive(inp), name='TraceMV(model inputs)')
    ev = run.drive()
    run.notes['classes'] = sum(len(e.get('cls', [])) for e in ev)
    run.notes['classes_off_the_first_column'] = sum(
        x['a'] > 0 for e in ev for x in e.get('cls', []))
    run.notes['nontrivial_extensions'] = sum(
        bool(x['ext']) for e in ev for x in e.get('cls', []))
    run.judge('TraceMV', ev)
    return run.finish(rule='representatives are cycles of the total complex, '
                           'a basis of its homology, and satisfy the '
                           'extension equations')
