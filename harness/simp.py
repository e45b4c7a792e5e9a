"""Drivers shared by the simplicial checks (C05-C08)."""
import itertools
from harness.core import Malformed, i_, imat
from harness import pers


class Ranks(object):
    """Exact ranks of a set of non negative reals; 0.0 has rank 0."""
    def __init__(self, values):
        self.vals = sorted(set([0.0] + [float(v) for v in values]))
        self.back = {v: k for k, v in enumerate(self.vals)}

    def __call__(self, x, what='radius'):
        x = float(x)
        if x not in self.back:
            raise Malformed('%s %r is none of the given values' % (what, x))
        return self.back[x]

    def coarse(self):
        """Rank of the values rounded to 7 decimals."""
        import numpy as np
        rr = [float(v) for v in np.around(self.vals, decimals=7)]
        u = sorted(set(rr))
        return [u.index(v) for v in rr]


def level(C, what):
    """A level of a complex as list of simplices (lists of ints)."""
    out = []
    for s in C:
        out.append([i_(v, what) for v in (
            s.tolist() if hasattr(s, 'tolist') else list(s))])
    return out


def rand_dist(r, n):
    """Random symmetric matrix: kinds with ties, zeros, metric or not."""
    kind = r.choice(['int', 'tie', 'float', 'euclid', 'grid', 'circle',
                     'ultra', 'zero', 'near', 'tiny'])
    import math
    pts = None
    if kind == 'euclid':
        k = r.randint(1, 4)
        pts = [[r.gauss(0, 1) for _ in range(k)] for _ in range(n)]
    elif kind == 'grid':
        k = r.randint(1, 3)
        pts = [[.1 * r.randint(0, 3) for _ in range(k)] for _ in range(n)]
    elif kind == 'circle':
        ph = r.random()
        pts = [[math.cos(ph + 2 * math.pi * i / n),
                math.sin(ph + 2 * math.pi * i / n)] for i in range(n)]
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if pts:
                x = math.sqrt(sum((a - b) ** 2
                                  for a, b in zip(pts[i], pts[j])))
            elif kind == 'int':
                x = float(r.randint(1, 12))
            elif kind == 'tie':
                x = float(r.randint(1, 2))
            elif kind == 'zero':
                x = float(r.randint(0, 3))
            elif kind == 'near':
                x = 1000. + 1e-4 * r.randint(0, 6)
            elif kind == 'tiny':
                x = 1e-6 * r.randint(0, 6)
            elif kind == 'ultra':
                x = float(max(i, j) % 4 + 1)
            else:
                x = r.random() * 10
            W[i][j] = W[j][i] = x
    return kind, W


def pick_maxr(r, W):
    vals = sorted(set(x for row in W for x in row))
    x = r.random()
    if x < .35:
        return r.choice(vals) if r.random() < .8 else vals[0] + 1e-9
    if x < .6 and len(vals) > 1:
        k = r.randrange(len(vals) - 1)
        return (vals[k] + vals[k + 1]) / 2
    return vals[-1] * 1.5 + 1


def count_simplices(W, maxr, top):
    """Number of simplices with 2..top+1 vertices (to bound the cases)."""
    n = len(W)
    lev = [(i,) for i in range(n)]
    out = []
    for _ in range(top):
        lev = [s + (v,) for s in lev for v in range(s[-1] + 1, n)
               if all(W[v][u] < maxr for u in s)]
        out.append(len(lev))
        if len(lev) > 600:
            break
    return out


def rand_complex(r, n, top):
    """Random simplicial complex (not a flag complex in general)."""
    S = [set() for _ in range(top + 1)]
    S[0] = set((i,) for i in range(n))
    for _ in range(r.randint(1, 7)):
        k = r.randint(1, top)
        if k + 1 > n:
            continue
        s = tuple(sorted(r.sample(range(n), k + 1)))
        for m in range(2, k + 2):
            for f in itertools.combinations(s, m):
                S[m - 1].add(f)
    C = []
    for k in range(1, top + 1):
        lev = sorted(S[k])
        if r.random() < .6:
            r.shuffle(lev)
        C.append([list(s) for s in lev])
    while len(C) > 1 and not C[-1] and r.random() < .7:
        C.pop()
    return C


def known_complex(r):
    """The projective plane, a Moore space, the torus or one of them with a
    facet removed, vertices in any order: (number of vertices, levels)."""
    from harness import mv
    F = list(r.choice([mv.RP2, mv.RP2, mv.MOORE3, mv.TORUS]))
    n = 1 + max(max(f) for f in F)
    o = list(range(n))
    r.shuffle(o)
    if r.random() < .3:
        F.remove(r.choice(F))
    S = [sorted(set(tuple(sorted(o[i] for i in q)) for f in F
                    for q in itertools.combinations(f, m))) for m in (2, 3)]
    for lev in S:
        r.shuffle(lev)
    return n, [[list(s) for s in lev] for lev in S]


def sparse_graph(r, n, cliques=3, extra=None):
    """Edges of a graph on many vertices with few edges and some cliques."""
    E = set()
    for _ in range(n if extra is None else extra):
        a, b = r.sample(range(n), 2)
        E.add((min(a, b), max(a, b)))
    for _ in range(cliques):
        for q in itertools.combinations(sorted(
                [n - 1 - r.randrange(3)] + r.sample(range(n - 3),
                                                    r.randint(2, 4))), 2):
            E.add(q)
    return sorted(E)


def clique_levels(n, E, top):
    """Cliques of the graph with 2..top+1 vertices."""
    S = set(E)
    nb = {}
    for a, b in E:
        nb.setdefault(a, set()).add(b)
    lev, out = [tuple(e) for e in sorted(S)], []
    for _ in range(top):
        out.append([list(s) for s in lev])
        lev = [s + (v,) for s in lev for v in sorted(nb.get(s[-1], ()))
               if all((u, v) in S for u in s)]
    return out


def sparse_dist(r, n):
    W = [[0. if i == j else 9. for j in range(n)] for i in range(n)]
    for a, b in sparse_graph(r, n):
        W[a][b] = W[b][a] = .5 * r.randint(1, 8)
    return W


def as_levels(n, C, kind=0):
    """Levels as the library stores them."""
    import numpy as np
    out = [n]
    for k, lev in enumerate(C):
        if lev:
            out.append(np.array(lev, dtype=float if kind == 1 else int))
        elif kind == 2:
            out.append([])
        else:
            out.append(np.array([]))
    return out


def rec_bnd(n, C, p, D):
    if not isinstance(D, (list, tuple)) or len(D) != len(C) + 1:
        raise Malformed('wrong number of differentials')
    sizes = [n] + [len(x) for x in C]
    return {'op': 'bnd', 'n': n, 'C': C, 'p': p, 'd0': i_(D[0]),
            'D': [pers.columns(D[k], sizes[k - 1], sizes[k], 'D')
                  for k in range(1, len(D))]}


def rec_hom(R, Dcols, sizes, maxr, p, out, rk, ranks):
    """Event for the result of persistent_homology.

    R: ranks of the radii per degree, Dcols: operators by columns."""
    if not isinstance(out, tuple) or len(out) != 3:
        raise Malformed('expected Hom, Im, PreIm')
    Hom, Im, Pre = out
    ev = {'op': 'hom', 'R': R, 'D': Dcols, 'maxr': maxr, 'p': p,
          'cr': ranks.coarse()}

    def bars(B):
        import numpy as np
        return [[rk(x) for x in b]
                for b in np.asarray(B.barcode).reshape(-1, 2).tolist()]
    ev['hb'] = [bars(h) for h in Hom]
    ev['ib'] = [bars(h) for h in Im]
    if len(Hom) != len(sizes) or len(Im) != len(sizes):
        raise Malformed('wrong number of degrees')
    for what, lst in (('Hom', Hom), ('Im', Im)):
        for d, B in enumerate(lst):
            if i_(B.dim) != len(ev['hb' if what == 'Hom' else 'ib'][d]):
                raise Malformed('%s[%d] has dim %r but %d bars' % (
                    what, d, B.dim, len(B.barcode)))
    ev['hc'] = [pers.coords(h, sizes[d], 'Hom') for d, h in enumerate(Hom)]
    ev['ic'] = [pers.coords(h, sizes[d], 'Im') for d, h in enumerate(Im)]
    ev['pre'] = [pers.columns(Pre[d + 1], sizes[d + 1], len(ev['ib'][d]),
                              'PreIm') if ev['ib'][d] else []
                 for d in range(len(sizes) - 1)] + [[]]
    return ev
