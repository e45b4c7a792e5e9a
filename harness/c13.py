"""C13: collections of local chains."""
from harness import gen
from harness.core import i_, Malformed, CaseTimeout

COUNT = {'quick': 1200, 'thorough': 20000}


def cases(seed, tier, extra):
    if extra:
        for b in gen.load(extra):
            b['op'] = 'chains'
            b['must'] = 1
            yield b
        return
    r = gen.rng('C13', seed, 'main')
    for nr, wd in [(300, [2]), (140, [3, 1]), (4, [140, 270]),
                   (3, [1] * 140), (2, [2] * 270), (70, [5, 2])]:
        for _ in range(2):
            yield dict(history(r, nr, wd), must=1)
    for n in range(COUNT[tier]):
        yield history(r)


def coll(r, wd, nr, p):
    c = []
    for w in wd:
        k = r.choice([0, 0, 1, 2, nr])
        ref = sorted(r.sample(range(nr), min(k, nr)))
        c.append({'ref': ref, 'row': [[r.randrange(p) for _ in range(w)]
                                      for _ in ref]})
    return c


def history(r, nr=None, wd=None):
    p = gen.pick_prime(r) if nr or r.random() < .97 else r.choice(gen.BIG)
    wd = wd or [r.randint(1, 3) for _ in range(r.randint(1, 3))]
    nr, nreg = nr or r.randint(1, 4), r.randint(2, 4)
    ops, full = [], set()
    for _ in range(r.randint(2, 9)):
        o = r.randint(1, nreg)
        if o not in full:
            op = r.choice(['new', 'new', 'empty'])
        else:
            op = r.choice(['entry', 'entry', 'plus', 'plus', 'minus', 'sums',
                           'copy', 'poke', 'badentry', 'badnew', 'new'])
        s = {'op': op, 'o': o}
        any_ = lambda: r.choice(sorted(full))
        if op in ('new', 'badnew'):
            s['c'] = coll(r, wd, nr, p)
            if op == 'badnew':
                s['how'] = r.randrange(2)
                if s['how'] and not any(x['ref'] for x in s['c']):
                    s['how'] = 0
        elif op in ('entry', 'badentry'):
            s['k'] = r.randint(1, len(wd))
            x = coll(r, [wd[s['k'] - 1]], nr, p)[0]
            if op == 'entry' and not x['ref'] and r.random() < .7:
                x = {'ref': [0], 'row': [[1] * wd[s['k'] - 1]]}
            s.update(x)
            if op == 'badentry':
                s['how'] = r.randrange(2)
                if not x['ref']:
                    s['ref'], s['row'] = [0], [[1] * wd[s['k'] - 1]]
        elif op == 'plus':
            s['a'], s['b'] = any_(), any_()
        elif op == 'sums':
            s['a'] = any_()
            q = p if p < 50 else 3      # sums are not reduced modulo p
            s['co'] = [[r.randrange(-q, q) for _ in range(nr)]
                       for _ in range(r.randint(1, min(nr, 6)))]
        elif op == 'copy':
            s['a'] = any_()
        elif op == 'poke':
            s['k'], s['r'] = r.randint(1, len(wd)), r.randrange(nr)
            s['row'] = [r.randrange(p) for _ in range(wd[s['k'] - 1])]
        full.add(o)
        ops.append(s)
    return {'op': 'chains', 'p': p, 'wd': wd, 'nr': nr, 'nreg': nreg,
            'ops': ops}


def record(c):
    import numpy as np
    from permaviss.spectral_sequence.local_chains_class import local_chains
    p, wd, nr, nreg = c['p'], c['wd'], c['nr'], c['nreg']
    local_chains.p = p
    reg = [local_chains(len(wd)) for _ in range(nreg)]
    out = []

    def arr(rows, w):
        return np.array(rows, float).reshape(len(rows), w)

    def build(col, how=None):
        refs = [np.array(x['ref'], int) for x in col]
        cos = [arr(x['row'], w) if x['ref'] else [] for x, w in
               zip(col, wd)]
        if how == 0:
            refs = refs + [np.array([], int)]
        if how == 1:
            k = [i for i, x in enumerate(col) if x['ref']][0]
            cos[k] = cos[k][:-1]
        return local_chains(refs, cos)

    for s in c['ops']:
        s = dict(s)
        o, op = s['o'] - 1, s['op']
        exc = ''
        try:
            if op == 'new':
                reg[o] = build(s['c'])
            elif op == 'badnew':
                build(s['c'], s['how'])
            elif op == 'empty':
                reg[o] = local_chains(len(wd))
            elif op == 'entry':
                k = s['k'] - 1
                if s['ref']:
                    reg[o].add_entry(k, np.array(s['ref'], int),
                                     arr(s['row'], wd[k]))
                elif len(reg[o].ref[k]) == 0:
                    reg[o].add_entry(k, [], [])
            elif op == 'badentry':
                k = s['k'] - 1
                bad = arr(s['row'] + [s['row'][0]], wd[k])
                reg[o].add_entry(k, np.array(s['ref'], int),
                                 bad if s['how'] else bad.tolist())
            elif op == 'plus':
                reg[o] = reg[s['a'] - 1] + reg[s['b'] - 1]
            elif op == 'minus':
                reg[o].minus()
            elif op == 'sums':
                co = np.array(s['co'], float)
                keep = co.copy()
                # the columns of the coefficients are all references
                if co.shape[1] < nr:
                    co = np.append(co, np.zeros((len(co), nr - co.shape[1])),
                                   axis=1)
                    keep = co.copy()
                reg[o] = local_chains.sums(reg[s['a'] - 1], co)
                if not np.array_equal(co, keep):
                    raise Malformed('coefficients were modified')
            elif op == 'copy':
                reg[o] = local_chains.copy_seq([reg[s['a'] - 1]])[0]
            elif op == 'poke':
                k = s['k'] - 1
                refs = [int(x) for x in reg[o].ref[k]]
                if s['r'] in refs:
                    reg[o].coord[k][refs.index(s['r'])] = s['row']
                else:
                    s['op'] = 'noop'
        except (Malformed, CaseTimeout):
            raise
        except Exception as e:
            exc = type(e).__name__
        s['exc'] = exc
        s['has'] = [True] * nreg
        s['s'] = [snap(x, p) for x in reg]
        out.append(s)
    return {'op': 'chains', 'p': p, 'wd': wd, 'nr': nr, 'nreg': nreg,
            'ops': out}


def residue(v, p):
    """A coordinate modulo p (as it is when it is not an integer)."""
    f = float(v)
    return f if f != f or f in (INF, -INF) or f != int(f) or abs(f) > 2 ** 53 \
        else int(f) % p


INF = float('inf')


def snap(x, p):
    if len(x.ref) != len(x.coord):
        raise Malformed('regions of references and coordinates differ')
    res = []
    for ref, co in zip(x.ref, x.coord):
        res.append({'ref': [i_(v, 'reference') for v in ref],
                    'row': [[i_(residue(v, p), 'coordinate') for v in row]
                            for row in co]})
    return res


def check(run):
    beh = run.behaviours('LocalChains')
    beh += run.behaviours('LocalChains', cfg='LocalChains_two',
                          name='LocalChains_two')
    if run.tier == 'thorough':
        beh += run.behaviours('LocalChains', cfg='LocalChains_deep',
                              name='LocalChains_deep')
    else:
        k = 1 + len(beh) // 6000
        beh = beh[run.seed % k::k]
    run.judge('TraceChains', run.drive(run.save('chains.ndjson', beh)),
              name='TraceChains(model histories)')
    run.judge('TraceChains', run.drive())
    run.assumptions = ['references of a region are listed increasingly, as '
                       'all callers do']
    return run.finish(rule='every history of three operations on two '
                      'or three collections (four: thorough), then random '
                      'histories up to nine operations on four collections')
