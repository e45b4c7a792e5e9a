"""C14: persistent homology through the spectral sequence = direct one."""
from harness import gen, mv
from harness.core import Malformed, _where, CaseTimeout

COUNT = {'quick': 520, 'thorough': 6000}
BUDGET = {'quick': 14, 'thorough': 420}
CASE_LIMIT = 120
M = None


def worker_init():
    global M
    M = mv.install()


def fixed_cases():
    """Inputs of the defects repaired in /repo."""
    r = gen.rng('C14', 0, 'fixed')
    for k in range(4):
        yield dict(mv.tmpl_ext(r), name='fixed-ext-%d' % k)
    for k in range(4):
        yield dict(mv.tmpl_d3(r), name='fixed-d3-%d' % k)
    for k in range(4):
        yield dict(mv.tmpl_susp(r, 0, 3, 2 + k % 2), name='susp-%d' % k)
    for k in range(3):
        yield dict(mv.tmpl_amb(r), name='amb-%d' % k)
        yield dict(mv.tmpl_amb4(r), name='amb4-%d' % k)
        yield dict(mv.tmpl_ext2(r), name='ext2-%d' % k)
    for k, (X, i) in enumerate([
            ([[0., 0.]], 0), ([[1., 1.]] * 3, 0), ([[2], [2]], 1),
            ([[0, 0], [1, 0], [3, 0], [3, 4], [0, 2], [1, 2]], 1),
            ([[float(i), i % 2] for i in range(9)], 0)]):
        yield {'X': X, 'maxr': 2.5, 'maxdim': 2, 'div': [2, 2, 1, 3, 8][k],
               'ov': 2.5, 'p': 3, 'kind': 'edge', 'name': 'edge-%d' % k,
               'int': i}
    for k, c in enumerate([
            mv.tmpl_ext(r, 0, 2), mv.tmpl_ext2(r, 0, 2),
            mv.tmpl_ext2(r, 0, 3), mv.tmpl_amb(r, 0, 2),
            mv.tmpl_susp(r, 0, 2, 2, 3), mv.tmpl_susp(r, 0, 3, 2, 2),
            mv.tmpl_susp(r, 0, 4, 2, 1, 1), mv.tmpl_extm(r, 0, 3),
            mv.tmpl_extm(r, 0, 4), dict(mv.tmpl_sphere(r, 0, 3, 3, 0),
                                        maxdim=5),
            mv.tmpl_sphere(r, 0, 3, 2), mv.tmpl_sphere(r, 0, 4, 1),
            mv.tmpl_torsion(r, 0, mv.RP2, 2, 2),
            mv.tmpl_torsion(r, .1, mv.RP2, 3, 3),
            mv.tmpl_torsion(r, 0, mv.MOORE3, 2, 3),
            mv.tmpl_torsion(r, 0, mv.TORUS, 3, 2),
            dict(mv.tmpl_ext2(r, 0, 2), p=1000003),
            dict(mv.tmpl_amb(r, 0, 2), p=1000003)]):
        yield dict(c, name='thick-%d-%s' % (k, c['kind']), thick=1)
    yield {'X': [[0., 0.], [1., 0.], [2., 0.], [4., 0.]], 'maxr': 1.5,
           'maxdim': 2, 'div': 2, 'ov': 1.5, 'p': 2, 'kind': 'flat',
           'name': 'fixed-flat'}


def long_cases(r, tier):
    """Many points and regions, with few simplices."""
    out = [mv.longline(r, 140, 70), mv.ring(r, 60, 4), mv.ring(r, 140, 5),
           mv.longline(r, 50, 6, 3)]
    if tier != 'quick':
        out += [mv.longline(r, 270, 140), mv.ring(r, 140, 9),
                mv.longline(r, 300, 3), mv.ring(r, 270, 7)]
    return out


def cases(seed, tier, extra):
    if extra:
        for n, b in enumerate(gen.load(extra)):
            yield dict(mv.from_model(b, n), op='pipe', every=1)
        return
    for c in fixed_cases():
        yield dict(c, op='pipe', must=1)
    r = gen.rng('C14', seed, 'main')
    for c in long_cases(r, tier):
        yield dict(c, op='pipe', must=1, name=c['kind'])
    for n in range(COUNT[tier]):
        c = mv.mixed(r, tri=60 if tier == 'quick' or n % 3 else 120)
        c.update(mv.units(r))
        yield dict(c, op='pipe', name='%s-%d' % (c['kind'], n))


def record(c):
    try:
        ss, lv, cells, args = mv.run(c, M)
    except mv.Skip:
        return {'events': []}
    top = c['maxdim']
    hb = []
    for d in range(top):
        hb.append(lv.bars(ss.persistent_homology[d])
                  if d < len(ss.persistent_homology) else [])
    return {'n': len(lv.w), 'w': lv.w, 'maxr': lv.maxr, 'top': top,
            'p': c['p'], 'hb': hb}


def check(run):
    deep = run.tier == 'thorough'
    inp = mv.model_inputs(run, ['MVPages'] + deep * ['MVPages_three'], 240)
    run.judge('TraceMV', run.drive(inp), name='TraceMV(model inputs)')
    ev = run.drive()
    run.judge('TraceMV', ev)
    return run.finish(rule='bars of the total complex = bars of the whole '
                           'Rips filtration, degree by degree')
