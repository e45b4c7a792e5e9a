"""Drivers shared by the persistence algebra checks (C09, C10, C11, C20)."""
from harness.core import Malformed, i_, imat

# real radii used for the integer radii 0, 1, 2, ... of the specification
SCALES = [
    lambda k: float(k),
    lambda k: 0.1 * k,
    lambda k: -2.0 + 0.75 * k,
    lambda k: 0.3 * k + 0.01 * k * k,
    lambda k: (k * 1.0) ** 0.5,
    lambda k: -5.0 + 1.1 * k,
    lambda k: 1000.0 + 1e-4 * k,    # close to each other
    lambda k: 1e-6 * k,             # all small, above the sorting precision
    lambda k: 1e5 * k,
]


class Radii(object):
    def __init__(self, kind):
        self.f = (lambda k: 2. ** -30 * k) if kind == 'fine' else SCALES[kind]
        self.back = {self.f(k): k for k in range(64)}

    def bars(self, bars):
        import numpy as np
        return np.array([[self.f(a), self.f(b)] for a, b in bars],
                        dtype=float).reshape(len(bars), 2)

    def unbar(self, barcode, what):
        import numpy as np
        out = []
        for b in np.asarray(barcode).reshape(-1, 2).tolist():
            if b[0] not in self.back or b[1] not in self.back:
                raise Malformed('%s has endpoint %r which is no radius of '
                                'the input' % (what, b))
            out.append([self.back[b[0]], self.back[b[1]]])
        return out


def columns(M, m, n, what):
    """m x n matrix as list of n columns."""
    rows = imat(M, m, n, what)
    return [[rows[i][j] for i in range(m)] for j in range(n)]


def coords(basis, m, what):
    n = i_(basis.dim)
    if n == 0:
        return []
    return columns(basis.coordinates, m, n, what)


def rand_bars(r, n, hi, sort=True):
    b = [sorted(r.sample(range(hi), 2)) for _ in range(n)]
    if r.random() < .2:
        b = [[x, hi - 1] if x < hi - 1 else [x - 1, x] for x, _ in b]
    if sort:
        b.sort(key=lambda x: (x[0], -x[1]))
    return b


def rand_morphism(r, A, B, p, density=None):
    d = r.choice([.4, .7, 1.0]) if density is None else density
    F = [[0] * len(A) for _ in B]
    for j, (x, y) in enumerate(A):
        for i, (u, v) in enumerate(B):
            if u <= x < v <= y and r.random() < d:
                F[i][j] = r.randrange(p)
    return F


def nullspace(M, n, p):
    """Basis of {x : M x = 0}, M list of rows of length n."""
    M = [list(x) for x in M]
    piv, r = [], 0
    for c in range(n):
        k = next((i for i in range(r, len(M)) if M[i][c] % p), None)
        if k is None:
            continue
        M[r], M[k] = M[k], M[r]
        iv = pow(M[r][c], -1, p)
        M[r] = [x * iv % p for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [(x - f * y) % p for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c not in piv:
            v = [0] * n
            v[c] = 1
            for i, q in enumerate(piv):
                v[q] = -M[i][c] % p
            out.append(v)
    return out


def alive(bars, t):
    return [i for i, (x, y) in enumerate(bars) if x <= t < y]


def rand_chain(r, p, L, mx, hi):
    """Barcodes B[0..L-1] and differentials D[d]: B[d] -> B[d-1], D D = 0."""
    Bs = [rand_bars(r, r.randint(0, mx), hi, sort=r.random() < .5)
          for _ in range(L)]
    D = [None]
    for d in range(1, L):
        A, B = Bs[d], Bs[d - 1]
        F = [[0] * len(A) for _ in B]
        for j, (x, y) in enumerate(A):
            rows = [i for i, (u, v) in enumerate(B) if u <= x < v <= y]
            if not rows or r.random() < .1:
                continue
            M = [] if d == 1 else [[D[d - 1][k][i] for i in rows]
                                   for k in alive(Bs[d - 2], x)]
            v = [0] * len(rows)
            for k in nullspace(M, len(rows), p):
                q = r.randrange(p)
                v = [(a + q * b) % p for a, b in zip(v, k)]
            for i, a in zip(rows, v):
                F[i][j] = a
        D.append(F)
    return Bs, D
