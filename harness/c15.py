"""C15: pages of the spectral sequence have the dimensions of the homology of
the previous page, at every radius."""
from harness import gen, mv
from harness.core import Malformed, i_
from harness.c14 import fixed_cases

COUNT = {'quick': 400, 'thorough': 5000}
BUDGET = {'quick': 9, 'thorough': 420}
CASE_LIMIT = 120
M = None


def worker_init():
    global M
    M = mv.install()


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield dict(mv.from_model(b, n), op='pages', every=1)
        return
    for c in fixed_cases():
        yield dict(c, op='pages', must=1, every=c['kind'] != 'd3' and 'thick' not in c)
    r = gen.rng('C15', seed, 'main')
    for c in [mv.longline(r, 40, 20), mv.ring(r, 24, 3), mv.ring(r, 40, 4),
              mv.longline(r, 20, 4, 3)]:
        yield dict(c, op='pages', must=1, name=c['kind'], seed=r.random())
    for n in range(COUNT[tier]):
        c = mv.small(r)
        c.update(mv.units(r))
        if c['maxdim'] > 3 and 'thick' not in c:
            c['maxdim'] = 3
        yield dict(c, op='pages', seed=r.random(),
                   name='%s-%d' % (c['kind'], n))


def pages_of(ss, lv, cells, top):
    """Bars and dimension table of every page: [page][column][row]."""
    R = int(ss.no_pages)
    out, dims = [], []
    for r in range(1, R + 1):
        page = []
        for a in range(len(cells)):
            col = []
            for b in range(top):
                if r == 1:
                    bars = []
                    for c in range(len(cells[a])):
                        bars += lv.bars(ss.Hom[0][a][c][b])
                else:
                    bars = lv.bars(ss.Hom[r - 1][a][b])
                col.append(bars)
            page.append(col)
        out.append(page)
        dims.append([[i_(ss.page_dim_matrix[r][b][a])
                      for a in range(len(cells))] for b in range(top)])
    # images of the differentials of page r < R; nothing is stored where no
    # differential arrives
    im = [[[lv.bars(ss.Im[r][a][b]) for b in range(top)]
           for a in range(len(cells))] for r in range(1, R)]
    return out, dims, im


def record(c):
    try:
        ss, lv, cells, args = mv.run(c, M)
    except mv.Skip:
        return {'events': []}
    top = c['maxdim']
    pages, dims, im = pages_of(ss, lv, cells, top)
    lev = list(range(lv.maxr))
    if not c.get('every') and len(lev) > 3:
        r = gen.rng('C15', c.get('seed', 0), 'lev')
        lev = sorted(r.sample(lev, 2)) + [lv.maxr - 1]
    if c['kind'] == 'd3':
        lev = lev[-1:]
    elif 'thick' in c:          # where most bars off the bottom row live
        lev = [max(lev, key=lambda t: sum(
            (a > 0) + (b > 0) for a, col in enumerate(pages[0])
            for b, bars in enumerate(col) for x in bars
            if x[0] <= t < x[1]))]
    # levels below nothing is born: only the points
    return {'n': len(lv.w), 'w': lv.w, 'maxr': lv.maxr, 'top': top,
            'p': c['p'], 'cells': cells, 'pages': pages, 'dims': dims, 'im': im,
            'ts': sorted(set(lev))}


def check(run):
    deep = run.tier == 'thorough'
    inp = mv.model_inputs(run, ['MVPages_d2'] + deep * ['MVPages_deep'], 240)
    run.judge('TraceMV', run.drive(inp), name='TraceMV(model inputs)')
    ev = run.drive()
    run.judge('TraceMV', ev)
    return run.finish(rule='at every level t and position with total degree '
                           'at most the maximum, bars alive on page r = '
                           'dim E^r of the double complex at t')
