"""C18: computations are pure - arguments kept, history irrelevant."""
import hashlib
import json
import os
import pickle
import random
from harness import gen, mv, pers, simp
from harness.core import CaseTimeout, Malformed

COUNT = {'quick': 260, 'thorough': 2600}
INTER = {'quick': 48, 'thorough': 500}
BUDGET = {'quick': 13, 'thorough': 400}
LEN = 16
CASE_LIMIT = 200
M = None


def worker_init():
    global M
    M = mv.install()


# --------------------------------------------------------------------------
# recipes: ['v', value] | ['arr', value, dtype] | ['list', ..] | ['f', name,
# args..] (a call of the library) | ['get', recipe, path] | ['basis', bars,
# sort] | ['sub', basis, bars, coordinates, sort]

def lib():
    from permaviss.gauss_mod_p import arithmetic_mod_p as a
    from permaviss.gauss_mod_p import functions as f
    from permaviss.gauss_mod_p import gauss_mod_p as g
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    from permaviss.simplicial_complexes.flag_complex import flag_complex
    from permaviss.simplicial_complexes.differentials import (
        complex_differentials)
    from permaviss.persistence_algebra.PH_classic import persistent_homology
    from permaviss.persistence_algebra.image_kernel import image_kernel
    from permaviss.persistence_algebra import (
        module_persistence_homology as h)
    from permaviss.covers import cubical_cover as c
    from permaviss.sample_point_clouds import examples as x
    from permaviss.spectral_sequence.local_chains_class import local_chains

    def method(name):
        return lambda o, *z: getattr(o, name)(*z)

    d = {'inv_mod_p': a.inv_mod_p, 'add_mod_c': a.add_mod_c,
         'add_arrays_mod_c': a.add_arrays_mod_c,
         'multiply_mod_p': f.multiply_mod_p, 'solve_mod_p': f.solve_mod_p,
         'solve_matrix_mod_p': f.solve_matrix_mod_p,
         'gauss_col': g.gauss_col, 'gauss_col_rad': g.gauss_col_rad,
         'gauss_barcodes': g.gauss_barcodes, 'index_pivot': g.index_pivot,
         'vietoris_rips': vietoris_rips, 'flag_complex': flag_complex,
         'complex_differentials': complex_differentials,
         'persistent_homology': persistent_homology,
         'image_kernel': image_kernel, 'quotient': h.quotient,
         'module_persistence_homology': h.module_persistence_homology,
         'generate_cover': c.generate_cover,
         'nerve_hypercube_cover': c.nerve_hypercube_cover,
         'corners_hypercube': c.corners_hypercube,
         'intersection_covers': c.intersection_covers,
         'take_sample': x.take_sample, 'random_circle': x.random_circle,
         'circle': x.circle, 'grid': x.grid,
         'grid_tridimensional': x.grid_tridimensional,
         'chains': local_chains, 'chains_add': lambda s, t: s + t,
         'chains_sums': local_chains.sums,
         'chains_copy': local_chains.copy_seq,
         'create_MV_ss': M.create_MV_ss}
    for k in ('active', 'birth', 'death', 'changes_list'):
        d['basis_' + k] = method(k)
    return d


def digest(x):
    if hasattr(x, 'persistent_homology'):
        x = mv.tokens(x)
    return hashlib.sha1(json.dumps(mv.plain(x)).encode()).hexdigest()


def build(rec, memo):
    """The object denoted by a recipe; shared between equal recipes."""
    import numpy as np
    key = json.dumps(rec)
    if key in memo:
        return memo[key]
    k = rec[0]
    if k == 'v':
        x = rec[1]
    elif k == 'arr':
        x = np.array(rec[1], dtype=rec[2])
    elif k == 'empty':
        x = np.zeros(rec[1])
    elif k == 'list':
        x = [build(y, memo) for y in rec[1:]]
    elif k == 'get':
        x = build(rec[1], memo)
        for i in rec[2]:
            x = x[i]
    elif k == 'basis' or k == 'sub':
        from permaviss.persistence_algebra.barcode_bases import barcode_basis
        if k == 'basis':
            x = barcode_basis(np.array(rec[1], float).reshape(-1, 2))
        else:
            x = barcode_basis(np.array(rec[2], float).reshape(-1, 2),
                              build(rec[1], memo),
                              np.array(rec[3], float))
        if rec[-1] is True:
            x.sort()
    else:
        x = lib()[rec[1]](*[build(y, memo) for y in rec[2:]])
    memo[key] = x
    return x


def in_child(f):
    """f() in a forked process: its (pickled) value."""
    r, s = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(150)
            os.close(r)
            v = pickle.dumps(f())
            with os.fdopen(s, 'wb') as h:
                h.write(v)
            code = 0
        finally:
            os._exit(code)
    os.close(s)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        raise Malformed('a computation in a fresh process ended abnormally')
    return pickle.loads(data)


def attempt(f):
    try:
        return f(), ''
    except (CaseTimeout, Malformed):
        raise
    except Exception as e:
        return None, type(e).__name__


def history(calls):
    """The calls of a history in one process, arguments shared."""
    memo, out, kept = {}, [], []
    for rec in calls:
        args, exc = attempt(
            lambda: [build(y, memo) for y in rec[2:]])
        if exc:         # an argument could not be computed
            continue
        b = digest(args)
        x, exc = attempt(lambda: lib()[rec[1]](*args))
        out.append({'f': rec[1], 'key': hashlib.sha1(json.dumps(
            rec).encode()).hexdigest(), 'before': b, 'after': digest(args),
            'out': digest(x), 'exc': exc, '_rec': rec})
        kept.append(x)
        memo.setdefault(json.dumps(rec), x)
    for e, x in zip(out, kept):
        e['late'] = digest(x)
    return out


def alone(rec):
    memo = {}
    args, exc = attempt(lambda: [build(y, memo) for y in rec[2:]])
    if exc:
        return {'out': digest(None), 'exc': 'argument-' + exc}
    x, exc = attempt(lambda: lib()[rec[1]](*args))
    return {'out': digest(x), 'exc': exc}


# --------------------------------------------------------------------------

def V(x):
    return ['v', x]


def F(x, t='float'):
    return ['arr', x, t]


def objects(r):
    """Some calls over a few shared arguments."""
    out = []
    ps = r.sample([2, 3, 5, 7, 11], 2)
    p = ps[0]
    m, n = r.randint(1, 4), r.randint(1, 5)
    A = F(gen.any_mat(r, m, n, p), r.choice(['float', 'int']))
    for q in ps:
        out += [['f', 'gauss_col', A, V(q)]]
    x = [r.randrange(p) for _ in range(n)]
    b = [sum(a * y for a, y in zip(row, x)) % p for row in A[1]]
    if r.random() < .3:
        b[0] = (b[0] + 1) % p
    out += [['f', 'solve_mod_p', A, F(b, 'int'), V(p)],
            ['f', 'solve_matrix_mod_p', A, F([b, b], 'int'), V(p)],
            ['f', 'multiply_mod_p', A, F(gen.any_mat(r, n, 3, p)), V(p)],
            ['f', 'add_arrays_mod_c', A, A, V(p)],
            ['f', 'inv_mod_p', V(r.choice([1, -2, 0, 9, 13])), V(p)],
            ['f', 'gauss_col_rad', A,
             F(sorted(r.randint(0, 4) for _ in range(n))),
             V(r.randint(1, n)), V(p)]]
    # complexes
    nv = r.randint(3, 6)
    W = simp.rand_dist(r, nv)[1]
    mr = simp.pick_maxr(r, W)
    D = F(W)
    vr = ['f', 'vietoris_rips', D, V(mr), V(r.choice([1, 2, 3]))]
    cx, rd = ['get', vr, [0]], ['get', vr, [1]]
    out.append(vr)
    out.append(['f', 'vietoris_rips', D, V(mr * .7), V(2)])
    for q in ps:
        df = ['f', 'complex_differentials', cx, V(q)]
        out += [df, ['f', 'persistent_homology', df, rd, V(mr), V(q)]]
        ph = ['f', 'persistent_homology', df, rd, V(mr), V(q)]
        hb = ['get', ph, [0, 0]]
        out += [['f', 'basis_changes_list', hb],
                ['f', 'basis_active', hb, V(mr / 3)],
                ['f', 'basis_death', hb, V(mr)]]
    # a complex of the same sizes on relabelled points
    o = list(range(nv))
    r.shuffle(o)
    v2 = ['f', 'vietoris_rips', F([[W[i][j] for j in o] for i in o])] + vr[3:]
    df = ['f', 'complex_differentials', ['get', v2, [0]], V(p)]
    out += [v2, df, ['f', 'persistent_homology', df, ['get', v2, [1]], V(mr),
                     V(p)]]
    G = [[j, i] for i in range(nv) for j in range(i) if r.random() < .7]
    if G:
        r.shuffle(G)
        out.append(['f', 'flag_complex', F(G, 'int'), V(nv), V(3)])
    # persistence modules
    hi = r.randint(3, 7)
    Ab = pers.rand_bars(r, r.randint(1, 4), hi, r.random() < .5)
    Bb = pers.rand_bars(r, r.randint(1, 4), hi, r.random() < .5)
    for srt in (False, True):
        if srt:
            Ab = sorted(Ab, key=lambda z: (z[0], -z[1]))
            Bb = sorted(Bb, key=lambda z: (z[0], -z[1]))
        Fm = F(pers.rand_morphism(r, Ab, Bb, p))
        ik = ['f', 'image_kernel', ['basis', Ab, srt], ['basis', Bb, srt],
              Fm, V(p)]
        out.append(ik)
        im = ['get', ik, [0]]
        out.append(['f', 'quotient', [
            'sub', ['basis', Bb, srt], Bb,
            [[int(i == j) for j in range(len(Bb))] for i in range(len(Bb))],
            True], im, V(p)])
    Bs, Ds = pers.rand_chain(r, p, r.randint(2, 4), 3, hi)
    for q in (p, p):
        out.append(['f', 'module_persistence_homology', ['list'] + [
            V(0)] + [F(d) if d and d[0] else ['empty', [
                len(Bs[k]), len(Bs[k + 1])]] for k, d in enumerate(Ds[1:])],
            ['list'] + [['basis', z, False] for z in Bs], V(q)])
    # covers and samples
    d = r.choice([1, 2, 2, 3])
    X = F([[r.randint(0, 8) / 4. for _ in range(d)]
           for _ in range(r.randint(3, 7))])
    if r.random() < .3:
        X = F([[round(v * 4) for v in x] for x in X[1]], 'int')
    out += [['f', 'generate_cover', V(2), V(r.choice([.3, .5])), X],
            ['f', 'corners_hypercube', X],
            ['f', 'nerve_hypercube_cover', V([r.randint(1, 3)
                                              for _ in range(d)])]]
    s = r.randint(0, 99)
    out += [['f', 'take_sample', X, V(r.randint(1, 5)), V(s)],
            ['f', 'take_sample', X, V(r.randint(1, 5)), V(0)],
            ['f', 'random_circle', V(4), V(2.), V(.1), V([1, 2]), V(s)],
            ['f', 'circle', V(r.randint(1, 5)), V(1.5)],
            ['f', 'grid', V(2), V(3)]]
    if r.random() < .5:
        c = mv.cloud(r, dims=[1, 2, 2], tri=15, edges=15, work=120)
        X = F(c['X'])
        k = [V(c['maxr']), V(min(c['maxdim'], 2)), V(c['div']), V(c['ov'])]
        k = [['f', 'create_MV_ss', X] + k + [V(q)] for q in ps]
        out += k + k
    # local chains
    R = r.randint(1, 3)
    w = [r.randint(1, 3) for _ in range(R)]

    def chains():
        refs = [sorted(r.sample(range(4), r.randint(0, 3))) for _ in w]
        return ['f', 'chains', ['list'] + [F(x, 'int') for x in refs],
                ['list'] + [F([[r.randrange(p) for _ in range(k)]
                               for _ in x]) if x else V([])
                            for x, k in zip(refs, w)]]
    s, t = chains(), chains()
    su = ['f', 'chains_sums', s, F([[r.randrange(p) for _ in range(4)]
                                    for _ in range(2)])]
    out += [s, ['f', 'chains_add', s, t], ['f', 'chains_add', t, s], su,
            ['f', 'chains_add', su, su], ['f', 'chains_copy', [
                'list', s, t, s]]]
    return out


def alike(r):
    """Calls whose arguments have equal sizes but different contents."""
    c = mv.cloud(r, dims=[1, 2, 2], tri=15, edges=15, work=120)
    p, k = c['p'], [V(c['maxr']), V(min(c['maxdim'], 2)), V(c['div']),
                    V(c['ov'])]
    X, out = c['X'], []
    lo = [min(x[i] for x in X) + max(x[i] for x in X)
          for i in range(len(X[0]))]
    for n in range(3):
        Y = [list(x) for x in X]
        if n != 0:
            r.shuffle(Y)
        if n == 2:
            Y = [[a - v for a, v in zip(lo, y)] for y in Y]
        out.append(['f', 'create_MV_ss', F(Y)] + k + [V(p)])
    m, n = r.randint(2, 5), r.randint(2, 5)
    for q in range(2):
        out.append(['f', 'gauss_col', F(gen.any_mat(r, m, n, p)), V(p)])
    D = simp.rand_dist(r, 5)[1]
    mr = simp.pick_maxr(r, D)
    for q in range(2):
        o = list(range(5))
        r.shuffle(o)
        vr = ['f', 'vietoris_rips', F([[D[i][j] for j in o] for i in o]),
              V(mr), V(2)]
        df = ['f', 'complex_differentials', ['get', vr, [0]], V(p)]
        out += [vr, df, ['f', 'persistent_homology', df, ['get', vr, [1]],
                         V(mr), V(p)]]
    return out


def cases(seed, tier, extra):
    r = gen.rng('C18', seed, 'main')
    beh = gen.load(extra)
    random.Random(seed).shuffle(beh)
    beh.sort(key=lambda b: b['pa'] == b['pb'])
    K, L = COUNT[tier], INTER[tier]
    for n in range(K + L):
        if n % (1 + K // L) == 0:
            b = beh[n // (1 + K // L) % len(beh)]
            if n % 3 == 0:
                a, c = mv.tmpl_ext(r), mv.tmpl_ext(r, r.choice([0, .1]))
            else:
                a = mv.labelled(r, tri=25, edges=25)
                c = mv.tmpl_ext(r) if n % 2 else mv.cloud(
                    r, dims=[1, 2, 2], tri=20, edges=20, work=200)
            a, c = dict(a, p=b['pa']), dict(c, p=b['pb'])
            yield {'op': 'inter', 'name': 'inter-%d' % n, 'cs': [a, c],
                   'sched': b['sched'], 'must': n < 20}
        else:
            ob = objects(r) if n % 5 else alike(r)
            h = [r.choice(ob) for _ in range(LEN)]
            h += [r.choice(h) for _ in range(LEN // 2)]
            r.shuffle(h)
            yield {'op': 'calls', 'name': 'calls-%d' % n, 'calls': h,
                   'must': n < 20}


def one(c):
    return mv.tokens(mv.run(c, M)[0])


def record(c):
    if c['op'] == 'calls':
        cs = in_child(lambda: history(c['calls']))
        al = {}
        for e in cs:
            rec = e['_rec']
            if e['key'] not in al:
                al[e['key']] = in_child(lambda: alone(rec))
        return {'calls': [{k: v for k, v in e.items() if k[0] != '_'}
                          for e in cs], 'alone': al,
                '_recs': [json.dumps(e['_rec'])[:400] for e in cs
                          if e['before'] != e['after']
                          or e['out'] != e['late']
                          or e['out'] != al[e['key']]['out']][:3]}

    def fresh(cc):
        try:
            o, x = attempt(lambda: one(cc))
        except mv.Skip:
            return None
        return {'out': o or [], 'exc': x}

    def both():
        B = mv.Baton(c['sched'])
        mv.Pool.before = B.stage
        return [{'out': o or [], 'exc': x} for o, x in B.run(
            [lambda cc=cc: one(cc) for cc in c['cs']])]
    al = [in_child(lambda cc=cc: fresh(cc)) for cc in c['cs']]
    if None in al:
        return {'events': []}
    return {'alone': al, 'both': in_child(both), 'sched': c['sched'],
            'p': [x['p'] for x in c['cs']]}


def check(run):
    beh = run.behaviours('History')
    if run.tier == 'thorough':
        beh += run.behaviours('History', cfg='History_deep',
                              name='History_deep')
    ev = run.drive(run.save('hist.ndjson', beh))
    run.judge('TraceHistory', ev)
    run.notes['calls_recorded'] = sum(len(e.get('calls', [])) for e in ev)
    run.notes['interleaved_pairs'] = sum(e['op'] == 'inter' for e in ev)
    run.assumptions = [
        'sort, update_broken, add_entry and minus change their object by '
        'contract and are not part of the histories',
        'two computations are interleaved at the stages of the pool']
    return run.finish(rule='random histories of calls over shared arguments '
                      'against the same calls in fresh processes; pairs of '
                      'computations interleaved by the schedules of the '
                      'model')
