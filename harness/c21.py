"""C21: the local data of a spectral sequence, intersection by intersection."""
from harness import gen, mv, pers, simp
from harness.core import Malformed, i_
from harness.c14 import fixed_cases

COUNT = {'quick': 100, 'thorough': 3000}
BUDGET = {'quick': 10, 'thorough': 300}
CASE_LIMIT = 120
NEED = ['points_IN', 'nerve_point_cloud', 'subcomplexes', 'zero_diff', 'Hom',
        'Im', 'PreIm', 'cycle_dimensions', 'first_page_barcodes']
M = None


def worker_init():
    global M
    M = mv.install()


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield dict(mv.from_model(b, n), op='place')
        return
    for c in fixed_cases():
        yield dict(c, must=1, op='place')
    r = gen.rng('C21', seed, 'main')
    for c in [mv.longline(r, 140, 70), mv.ring(r, 60, 5),
              mv.longline(r, 20, 4, 3)]:
        yield dict(c, must=1, name=c['kind'], op='place')
    for n in range(COUNT[tier]):
        c = mv.mixed(r) if n % 2 else mv.small(r)
        c.update(mv.units(r))
        yield dict(c, name='%s-%d' % (c['kind'], n), op='place')


def ids(rows):
    """Every row by the index of the first row equal to it."""
    seen = {}
    return [seen.setdefault(tuple(map(float, x)), k)
            for k, x in enumerate(rows)]


def record(c):
    try:
        ss, lv, cells, args = mv.run(c, M)
    except mv.Skip:
        return {'events': []}
    if any(not hasattr(ss, k) for k in NEED):
        return {'events': []}
    X, p, top = args[0], c['p'], c['maxdim']
    events = []
    for a in range(len(cells)):
        cum = [[i_(x) for x in ss.cycle_dimensions[a][b]] for b in range(top)]
        for k, cell in enumerate(cells[a]):
            pts = [i_(v) for v in ss.points_IN[a][k]]
            n = len(pts)
            cloud = [list(x) for x in ss.nerve_point_cloud[a][k]]
            u = ids([list(x) for x in X] + cloud)
            if any(not 0 <= v < len(X) for v in pts):
                raise Malformed('no such point')
            C = ss.subcomplexes[a][k]
            L = [[[v] for v in range(n)]] + [
                simp.level(x, 'simplex') for x in C[1:]]
            w = [[lv.w[i][j] for j in pts] for i in pts]
            if any(not 0 <= v < n for lev in L for s in lev for v in s):
                raise Malformed('a simplex has a vertex outside the region')
            R = [[max(w[i][j] for i in s for j in s) for s in lev]
                 for lev in L]
            D = ss.zero_diff[a][k]
            cols = [pers.columns(D[d], len(L[d - 1]), len(L[d]), 'D')
                    for d in range(1, len(D))]
            base = {'n': n, 'p': p, 'maxr': lv.maxr, 'C': L[1:], 'D': cols}
            hom = simp.rec_hom(R, cols, [len(x) for x in L], lv.maxr, p,
                               (ss.Hom[0][a][k], ss.Im[0][a][k],
                                ss.PreIm[0][a][k]), lv, lv)
            prev = [x[k - 1] if k else 0 for x in cum]
            fpb = []
            for b in range(top):
                bars = lv.bars(ss.first_page_barcodes[a][b])
                fpb.append(bars[prev[b]:cum[b][k]])
            events += [
                dict(base, op='rips', w=w, maxdim=top, c0=i_(C[0]),
                     r0=[0] * n, R=R[1:]),
                dict(base, op='bnd', d0=i_(D[0])), hom,
                {'op': 'place', 's': cell['s'], 'pts': pts,
                 'own': [cells[0][i]['pts'] for i in cell['s']],
                 'pc': u[len(X):], 'pid': [u[v] for v in pts], 'fpb': fpb,
                 'hb': hom['hb'][:top], 'n': len(X)}]
    return {'events': [e for e in events
                       if not (e['op'] == 'hom' and not e['R'][0])]}


def check(run):
    inp = mv.model_inputs(run, ['MVPages_d2'], 60)
    # the same local problem comes up in many cells
    seen, out = set(), []
    for e in run.drive(inp) + run.drive():
        k = str([x for x in sorted(e.items()) if x[0][0] != '_'])
        if k not in seen:
            seen.add(k)
            out.append(e)
    run.judge('TraceSimp', [e for e in out if e['op'] != 'place'])
    run.judge('TraceMV', [e for e in out if e['op'] == 'place'])
    run.notes['regions'] = run.traces // 4
    return run.finish(rule='complex, operators, bars, cycles and boundaries '
                           'stored for every intersection of every cover')
