"""Deterministic generators shared by the drivers (no code of /repo here)."""
import itertools
import json
import random

SMALL = [2, 3, 5, 7]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 31, 101, 251]
BIG = [1009, 4093, 46337, 65537, 1000003]


def rng(pid, seed, *salt):
    return random.Random('%s/%s/%r' % (pid, seed, salt))


def load(path):
    return [json.loads(x) for x in open(path)]


def pick_prime(r, big=False):
    x = r.random()
    if x < 0.6:
        return r.choice(SMALL)
    if x < 0.9 or not big:
        return r.choice(PRIMES)
    return r.choice(BIG)


def rand_mat(r, m, n, p, density=None):
    d = r.choice([0.25, 0.5, 0.75, 1.0]) if density is None else density
    return [[r.randrange(p) if r.random() < d else 0 for _ in range(n)]
            for _ in range(m)]


def mat_mul(A, B, p):
    n = len(B[0]) if B else 0
    return [[sum(a * B[k][j] for k, a in enumerate(row)) % p
             for j in range(n)] for row in A]


def low_rank(r, m, n, p):
    k = r.randint(0, min(m, n))
    if k == 0:
        return [[0] * n for _ in range(m)]
    return mat_mul(rand_mat(r, m, k, p), rand_mat(r, k, n, p), p)


def any_mat(r, m, n, p):
    x = r.random()
    if x < 0.4:
        return rand_mat(r, m, n, p)
    if x < 0.8:
        return low_rank(r, m, n, p)
    # few distinct columns, repeated and scaled
    cols = [[r.randrange(p) for _ in range(m)]
            for _ in range(max(1, n // 3))]
    out = []
    for _ in range(n):
        c, q = r.choice(cols), r.randrange(p)
        out.append([q * v % p for v in c])
    return [[out[j][i] for j in range(n)] for i in range(m)]
