"""C22: the Cech differential and the lifts, on any chains."""
import json
from harness import gen, mv
from harness.core import Malformed, i_, imat, call
from harness.c14 import fixed_cases
from harness.c16 import simplices

COUNT = {'quick': 260, 'thorough': 4000}
BUDGET = {'quick': 9, 'thorough': 300}
CASE_LIMIT = 120
NEED = ['points_IN', 'subcomplexes', 'Hom', 'Im', 'cycle_dimensions',
        'cech_diff', 'first_page_lift', 'cech_diff_and_lift']
M = None


def worker_init():
    global M
    M = mv.install()


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield dict(mv.from_model(b, 3 * n), maxdim=b['top'],
                       runs=b['runs'], op='clift')
        return
    for c in fixed_cases():
        yield dict(c, must=1, op='clift')
    r = gen.rng('C22', seed, 'main')
    for c in [mv.longline(r, 40, 20), mv.ring(r, 24, 3),
              mv.longline(r, 20, 4, 3)]:
        yield dict(c, must=1, name=c['kind'], op='clift')
    yield {'X': [[float(i), float(j)] for i in range(5) for j in range(5)],
           'maxr': 1.25, 'ov': 1.5, 'div': 3, 'maxdim': 2, 'p': 3,
           'kind': 'grid', 'name': 'grid', 'must': 1, 'op': 'clift'}
    yield dict(mv.longline(r, 640, 2), must=1, name='many-simplices', ov=24.,
               op='clift', only='cech')
    for n in range(COUNT[tier]):
        c = mv.mixed(r) if n % 3 == 0 else mv.small(r)
        c.update(mv.units(r))
        yield dict(c, name='%s-%d' % (c['kind'], n), op='clift',
                   seed=r.random())


class View(object):
    """Local simplices and classes of a finished spectral sequence."""
    def __init__(self, ss, lv, cells, p):
        self.ss, self.lv, self.cells, self.p = ss, lv, cells, p
        self.order = [[[i_(v) for v in pts] for pts in ss.points_IN[a]]
                      for a in range(len(cells))]
        self.memo = {}

    def spx(self, a, c, b):
        k = a, c, b
        if k not in self.memo:
            self.memo[k] = simplices(self.ss, self.order, a, c, b)
        return self.memo[k]

    def sparse(self, a, c, b, row, what):
        sp = self.spx(a, c, b)
        if len(row) != len(sp):
            raise Malformed('%s of length %d, %d simplices' % (
                what, len(row), len(sp)))
        row = [self.mod(x, what) for x in row]
        return [[c + 1, vs, sg * x % self.p]
                for x, (sg, vs) in zip(row, sp) if x]

    def mod(self, x, what):
        """Values need not be reduced, but be exact integers."""
        if x != x or abs(x) > 2 ** 53 or int(x) != x:
            raise Malformed('%s has the entry %r' % (what, x))
        return int(x) % self.p

    def chains(self, a, b, ch, K, what):
        """Local chains as one sparse chain for each of K generators."""
        out = [[] for _ in range(K)]
        for c in range(len(self.cells[a])):
            ref = [i_(x) for x in ch.ref[c]]
            if len(set(ref)) != len(ref) or any(not 0 <= x < K for x in ref):
                raise Malformed('%s: references %r' % (what, ref))
            for k, x in enumerate(ref):
                out[x] += self.sparse(a, c, b, ch.coord[c][k].tolist(), what)
        return out

    def classes(self, a, b):
        """[birth, sparse chain] of the local classes, in order."""
        out = []
        for c in range(len(self.cells[a])):
            H = self.ss.Hom[0][a][c][b]
            for k, (x, _) in enumerate(self.lv.bars(H)):
                out.append([x, self.sparse(
                    a, c, b, H.coordinates[:, k].tolist(), 'class')])
        return out


def local(rows, ncells):
    """rows: {cell: {generator: vector}} -> local_chains."""
    import numpy as np
    from permaviss.spectral_sequence.local_chains_class import local_chains
    out = local_chains(ncells)
    for c in sorted(rows):
        ref = sorted(rows[c])
        if ref:
            out.add_entry(c, np.array(ref), np.array(
                [rows[c][k] for k in ref], dtype=float))
    return out


def any_chains(v, r, a, b, K):
    """Random chains at (a, b): (local chains, sparse)."""
    rows = {}
    for c in range(len(v.cells[a])):
        n = len(v.spx(a, c, b))
        q = r.choice([0, .3, .7, 1])
        for k in range(K):
            if n and r.random() < q:
                d = r.choice([.2, 1])
                rows.setdefault(c, {})[k] = [
                    r.randrange(v.p) if r.random() < d else 0
                    for _ in range(n)]
    return rows


def cycles(v, r, a, b, K):
    """Random local cycles at (a, b), born by the radius that comes along;
    a generator with a radius of its own level."""
    import numpy as np
    R = [r.randrange(v.lv.maxr) for _ in range(K)]
    rows = {}
    for c in range(len(v.cells[a])):
        H, I = v.ss.Hom[0][a][c][b], v.ss.Im[0][a][c][b]
        q = r.choice([0, .5, 1])
        for k in range(K):
            if r.random() >= q:
                continue
            vec = np.zeros(len(v.spx(a, c, b)), dtype=object)
            for B in (H, I):
                for j, (x, _) in enumerate(v.lv.bars(B)):
                    if x <= R[k] and r.random() < .5:
                        f = r.randrange(v.p)
                        vec = vec + f * np.array([
                            i_(y) for y in B.coordinates[:, j]], dtype=object)
            if len(vec):
                rows.setdefault(c, {})[k] = [int(x) % v.p for x in vec]
    return rows, R


def sparse_rows(v, a, b, rows, K):
    out = [[] for _ in range(K)]
    for c in rows:
        for k in rows[c]:
            out[k] += v.sparse(a, c, b, rows[c][k], 'chain')
    return out


def base(v, a):
    return {'w': v.lv.w, 'p': v.p, 'a': a,
            'up': [{'s': x['s']} for x in v.cells[a]],
            'lo': [{'s': x['s']} for x in v.cells[a - 1]] if a else []}


def ev_cech(v, a, b, rows, K):
    e = dict(base(v, a), op='cech', b=b, z=sparse_rows(v, a, b, rows, K))
    out, e['exc'] = call(v.ss.cech_diff, a - 1, b, local(
        rows, len(v.cells[a])))
    if not e['exc']:
        e['y'] = v.chains(a - 1, b, out, K, 'image')
    return e


def ev_lift(v, op, a, b, rows, R):
    import numpy as np
    K, t = len(R), a - (op == 'clift')
    e = dict(base(v, a), op=op, b=b, z=sparse_rows(v, a, b, rows, K), R=R,
             cls=v.classes(t, b))
    f = v.ss.first_page_lift if op == 'lift' else v.ss.cech_diff_and_lift
    out, e['exc'] = call(f, a, b, local(rows, len(v.cells[a])),
                         np.array([v.lv.v[x] for x in R]))
    if e['exc']:
        return e
    e['beta'] = imat(out[0], K, len(e['cls']), 'coefficients')
    e['l'] = v.chains(t, b + 1, out[1], K, 'lift')
    return e


def record(c):
    try:
        ss, lv, cells, args = mv.run(c, M)
    except mv.Skip:
        return {'events': []}
    if any(not hasattr(ss, k) for k in NEED):
        return {'events': []}
    v = View(ss, lv, cells, c['p'])
    events = []
    if 'runs' in c:
        for x in c['runs']:
            rows = {}
            for cell, s, q in x['z']:
                cell -= 1
                sp = v.spx(x['a'], cell, x['b'])
                row = rows.setdefault(cell, {}).setdefault(0, [0] * len(sp))
                k = [y for _, y in sp].index(s)
                row[k] = (row[k] + sp[k][0] * q) % v.p
            e = ev_lift(v, 'clift', x['a'], x['b'], rows, [lv.maxr - 1])
            if not e['exc']:
                t = x['a'] - 1
                bars = [y for k in range(len(cells[t]))
                        for y in lv.bars(ss.Hom[0][t][k][x['b']])]
                live = [q for q, y in zip(e['beta'][0], bars)
                        if y[1] == lv.maxr]
                e['replay_ok'] = any(q % v.p for q in live) == (
                    x['steps'] == 0)
            events += [e, ev_cech(v, x['a'], x['b'], rows, 1)]
        return {'events': events}
    r = gen.rng('C22', c.get('seed', c.get('name')), 'chains')
    for a in range(len(cells)):
        for b in range(c['maxdim']):
            if not any(v.spx(a, k, b) for k in range(len(cells[a]))):
                continue
            K = r.randint(1, 4)
            if a:
                events.append(ev_cech(v, a, b, any_chains(v, r, a, b, K), K))
            if a and 'only' not in c:
                events.append(ev_lift(v, 'clift', a, b,
                                      *cycles(v, r, a, b, K)))
            if 'only' not in c:
                events.append(ev_lift(v, 'lift', a, b,                               *cycles(v, r, a, b, K)))
    return {'events': [e for e in events if any(e['z'])]}


def check(run):
    cfgs = ['Zigzag_two'] if run.tier == 'quick' else [
        'Zigzag_two', 'Zigzag_primes', 'Zigzag']
    inst = {}
    for cfg in cfgs:
        for b in run.behaviours('Zigzag', cfg=cfg, name=cfg):
            k = json.dumps([b[x] for x in ('w', 'p', 'maxr', 'top', 'sets')])
            inst.setdefault(k, []).append({
                x: b[x] for x in ('a', 'b', 'z', 'steps')})
    keys = sorted(inst)
    if run.tier == 'quick':     # a part of the instances, all their cycles
        n = -(-len(keys) // 60)
        keys = keys[run.seed % n::n]
    inp = []
    for k in keys:
        w, p, maxr, top, sets = json.loads(k)
        inp.append({'w': w, 'p': p, 'maxr': maxr, 'top': top, 'sets': sets,
                    'runs': inst[k]})
    ev = run.drive(run.save('zz.ndjson', inp))
    for e in ev:
        if e.get('replay_ok') is False:
            run.fail('continues-other-cycles-than-the-model', e, 'Zigzag')
    ev = [e for e in ev + run.drive()]
    run.judge('TraceMV', ev)
    return run.finish(rule='Cech differential of arbitrary chains; cycles '
                      'and their Cech differentials written as classes and '
                      'boundaries, at every position')
