"""Driving the Mayer-Vietoris pipeline: stand-ins for the environment (process
pool, and for given metrics/covers the distance and cover functions), input
generators, and the projection of a finished spectral sequence."""
import itertools
import pickle
import threading
from harness.core import Malformed, i_

# --------------------------------------------------------------------------
# stand-ins: installed before permaviss is imported


import multiprocessing.pool as _mpp
REAL = _mpp.Pool            # the real class, also after install()


class Later(object):
    """A submitted task; its pool runs it, with all others submitted so far,
    when somebody waits for one of them."""
    def __init__(self, pool, f, args, kw, callback=None, error=None):
        self.pool, self.task = pool, (f, args, kw)
        self.cb, self.ecb = callback, error
        self.done = False
        self.after = []

    def finish(self, ok, x):
        self.done, self.ok, self.x = True, ok, x
        cb = self.cb if ok else self.ecb
        if cb is not None:
            cb(x)
        for g in self.after:
            g(self)

    def get(self, timeout=None):
        self.pool.flush()
        if not self.ok:
            raise self.x
        return self.x

    def wait(self, timeout=None):
        self.pool.flush()

    def ready(self):
        self.pool.flush()
        return self.done

    def successful(self):
        self.pool.flush()
        return self.ok

    # as a future
    result = get

    def exception(self, timeout=None):
        self.pool.flush()
        return None if self.ok else self.x

    def add_done_callback(self, g):
        if self.done:
            g(self)
        else:
            self.after.append(g)

    def running(self):
        return False

    cancelled = cancel = running

    @property
    def _state(self):
        return 'FINISHED' if self.done else 'PENDING'


def call_task(t):
    f, args, kw = t
    return f(*args, **kw)


class Pool(object):
    """A process pool run one task at a time.  Like in separate processes,
    every task sees its own copy of its inputs, and so does the caller of the
    results.  `order(n)` gives the order in which n tasks run; `chunk` tasks
    (all of them when None) share a copy, as they do in one worker."""
    chunk = None
    order = staticmethod(lambda n: list(range(n)))
    isolate = True
    log = None
    script = None       # n -> [(task, worker), ..]: run in forked workers
    before = None       # called before the tasks of a stage are run
    real = None         # number of workers of a real pool
    cpus = None         # number of processors the code is told

    def __new__(cls, *a, **k):
        if cls.real:
            _mpp.Pool = REAL    # the real class refers to itself by name
            return REAL(cls.real, *a[1:], **{
                x: y for x, y in k.items() if x != 'processes'})
        return object.__new__(cls)

    threads = False     # tasks share the memory of the caller

    def __init__(self, *a, **k):
        import os
        self._queue = []
        self._processes = (a[0] if a and a[0] else k.get('processes')
                           or k.get('max_workers')) or os.cpu_count()
        if a or k:
            init = k.get('initializer')
            if init is None and len(a) > 1:
                init = a[1]
            if init is not None:
                init(*(k.get('initargs') or (a[2] if len(a) > 2 else ())))

    def _many(self, f, tasks):
        tasks = list(tasks)
        out = [None] * len(tasks)
        if Pool.before is not None:
            Pool.before()
        if Pool.script is not None and tasks:
            if not self.threads:
                return self._forked(f, tasks, Pool.script(len(tasks)))
            order = [t for t, _ in Pool.script(len(tasks))]
        else:
            order = list(self.order(len(tasks)))
        assert sorted(order) == list(range(len(tasks)))
        size = self.chunk or max(1, len(tasks))
        for k in range(0, len(order), size):
            part = order[k:k + size]
            g, args = f, [tasks[i] for i in part]
            if self.isolate and not self.threads:
                g, args = pickle.loads(pickle.dumps((g, args)))
            res = [g(*x) for x in args]
            if self.isolate and not self.threads:
                res = pickle.loads(pickle.dumps(res))
            for i, x in zip(part, res):
                out[i] = x
        if Pool.log is not None and len(tasks) > 1:
            Pool.log.append(order)
        return out, order

    def _forked(self, f, tasks, script):
        """Every worker is a forked process which runs its tasks in the
        scripted order; the function is shipped anew for every chunk
        (four chunks per worker, as in the real pool)."""
        import os
        n = len(tasks)
        assert sorted(t for t, _ in script) == list(range(n)), script
        blob, args = pickle.dumps(f), [pickle.dumps(x) for x in tasks]
        out = [None] * n
        for w in sorted(set(w for _, w in script)):
            mine = [t for t, v in script if v == w]
            r, s = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    import signal
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    os.close(r)
                    res = []
                    size = -(-len(mine) // 4)
                    for k, t in enumerate(mine):
                        if k % size == 0:
                            g = pickle.loads(blob)
                        x = pickle.loads(args[t])
                        try:
                            res.append((t, True, g(*x)))
                        except Exception as e:
                            res.append((t, False, e))
                    with os.fdopen(s, 'wb') as h:
                        h.write(pickle.dumps(res))
                    code = 0
                finally:
                    os._exit(code)
            os.close(s)
            with os.fdopen(r, 'rb') as h:
                data = h.read()
            os.waitpid(pid, 0)
            for t, ok, x in pickle.loads(data):
                if not ok:
                    raise x
                out[t] = x
        if Pool.log is not None:
            Pool.log.append([[t, w] for t, w in script])
        return out, [t for t, _ in script]

    def map(self, f, it, chunksize=None):
        return self._many(f, [(x,) for x in it])[0]

    def starmap(self, f, it, chunksize=None):
        return self._many(f, [tuple(x) for x in it])[0]

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=1):
        out, order = self._many(f, [(x,) for x in it])
        return iter([out[i] for i in order])

    def map_async(self, f, it, chunksize=None, callback=None,
                  error_callback=None):
        return self.submit_all(f, [(x,) for x in it], callback,
                               error_callback)

    def starmap_async(self, f, it, chunksize=None, callback=None,
                      error_callback=None):
        return self.submit_all(f, [tuple(x) for x in it], callback,
                               error_callback)

    def submit_all(self, f, tasks, callback, error):
        every = Later(self, None, (), {}, callback, error)
        left = [len(tasks)]
        parts = []

        def one(_):
            left[0] -= 1
            if left[0] == 0:
                bad = [t.x for t in parts if not t.ok]
                every.finish(not bad, bad[0] if bad else [
                    t.x for t in parts])
        for x in tasks:
            parts.append(self.apply_async(f, x))
            parts[-1].add_done_callback(one)
        if not tasks:
            every.finish(True, [])
        return every

    def apply(self, f, args=(), kwds=None):
        return self.apply_async(f, args, kwds).get()

    def apply_async(self, f, args=(), kwds=None, callback=None,
                    error_callback=None):
        t = Later(self, f, tuple(args), dict(kwds or {}), callback,
                  error_callback)
        self._queue.append(t)
        return t

    def flush(self):
        """Run what was submitted; callbacks come as the tasks finish."""
        q, self._queue = self._queue, []
        if not q:
            return
        out, order = self._many(attempt_task, [(t.task,) for t in q])
        for i in order:
            q[i].finish(*out[i])

    def close(self):
        self.flush()

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.flush()


def attempt_task(t):
    try:
        return True, call_task(t)
    except Exception as e:
        return False, e


class Threads(Pool):
    """A pool of threads: tasks see the memory of the caller."""
    threads = True

    def __new__(cls, *a, **k):
        return object.__new__(cls)


class Executor(Pool):
    """concurrent.futures on top of the pool."""
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), **k):
        Pool.__init__(self, max_workers, initializer, initargs)

    def submit(self, f, *args, **kw):
        return self.apply_async(f, args, kw)

    def map(self, f, *its, **k):
        return iter(self.starmap(f, list(zip(*its))))

    def shutdown(self, wait=True, **k):
        self.flush()


class ThreadExecutor(Executor):
    threads = True

    def __init__(self, max_workers=None, thread_name_prefix='',
                 initializer=None, initargs=()):
        Pool.__init__(self, max_workers, initializer, initargs)


def install_futures():
    """Stand-ins for the executors and for waiting on futures."""
    import concurrent.futures as cf
    import multiprocessing.dummy
    cf.ProcessPoolExecutor, cf.ThreadPoolExecutor = Executor, ThreadExecutor
    multiprocessing.dummy.Pool = _mpp.ThreadPool = Threads
    as_completed, wait = cf.as_completed, cf.wait

    def my_as_completed(fs, timeout=None):
        fs = list(fs)
        if not all(isinstance(f, Later) for f in fs):
            return as_completed(fs, timeout)
        done = [f for f in fs if f.done]
        for f in fs:
            if not f.done:
                f.add_done_callback(done.append)
        for f in fs:
            f.wait()
        return iter(done)

    def my_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = list(fs)
        if not all(isinstance(f, Later) for f in fs):
            return wait(fs, timeout, return_when)
        for f in fs:
            f.wait()
        return cf.DoneAndNotDoneFutures(set(fs), set())

    cf.as_completed, cf.wait = my_as_completed, my_wait


def install_cpus():
    """The number of processors is what Pool.cpus says."""
    import os
    count = os.cpu_count
    os.cpu_count = lambda: Pool.cpus or count()
    if hasattr(os, 'process_cpu_count'):
        os.process_cpu_count = os.cpu_count
    if hasattr(os, 'sched_getaffinity'):
        aff = os.sched_getaffinity
        os.sched_getaffinity = lambda pid: (
            set(range(Pool.cpus)) if Pool.cpus else aff(pid))


class _Env(threading.local):
    D = None            # given dissimilarity of the points (index in X[:, 0])
    cover = None        # given cover
    P = None            # coordinates of the points of the given cover
    embed = False       # the code does not ask the distance stand-ins
    d_used = c_used = 0


Env = _Env()


def install(pool=True):
    """Replace the process pool and put switchable stand-ins in front of the
    distance and the cover functions.  Must precede the import of permaviss."""
    import numpy as np
    import scipy.spatial.distance as sd
    if pool:
        import multiprocessing
        import multiprocessing.pool
        multiprocessing.Pool = Pool
        multiprocessing.pool.Pool = Pool
        import multiprocessing.context
        multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: Pool(
            *a, **k)
        install_futures()
        install_cpus()
    pdist, cdist = sd.pdist, sd.cdist

    def ids(X):
        return [int(x) for x in np.asarray(X).reshape(len(X), -1)[:, 0]] \
            if len(X) else []

    def my_pdist(X, *a, **k):
        if Env.D is None:
            return pdist(X, *a, **k)
        Env.d_used += 1
        return np.array([Env.D[x][y] for x, y in itertools.combinations(
            ids(X), 2)], float)

    def my_cdist(X, Y, *a, **k):
        if Env.D is None:
            return cdist(X, Y, *a, **k)
        Env.d_used += 1
        return np.array([[Env.D[x][y] for y in ids(Y)] for x in ids(X)],
                        float)

    sd.pdist, sd.cdist = my_pdist, my_cdist
    import permaviss.covers.cubical_cover as cc
    real = cc.generate_cover

    def generate_cover(*a, **k):
        if Env.cover is None:
            return real(*a, **k)
        Env.c_used += 1
        return as_cover(Env.cover, Env.P)

    cc.generate_cover = generate_cover
    import permaviss.spectral_sequence.MV_spectral_seq as M
    import sys
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'permaviss':
            for k, v in list(vars(mod).items()):
                if v is real:
                    setattr(mod, k, generate_cover)
    return M


def as_cover(sets, P=None):
    """The cover by the given point sets, in the format of the library."""
    import numpy as np
    m = len(sets)
    if P is None:
        P = np.arange(1 + max(max(s, default=0) for s in sets)).reshape(
            -1, 1).astype(float)
    npc, nin, nerve = [], [], [m]
    for k in range(1, m + 1):
        npc.append([])
        nin.append([])
        combos = list(itertools.combinations(range(m), k))
        if k > 1:
            nerve.append(np.array(combos).astype(float))
        for c in combos:
            s = sorted(set.intersection(*[set(sets[i]) for i in c]))
            nin[-1].append(np.array(s).astype(int))
            npc[-1].append(np.array(P[np.array(s, dtype=int)]))
    nerve.append([])
    npc.append([])
    nin.append([])
    return npc, nin, nerve


def cells_of(cover):
    """The cells of a cover in the format of the library: one list per nerve
    dimension of records (nerve simplex, points)."""
    npc, nin, nerve = cover
    out = []
    for a in range(len(nin)):
        if a == 0:
            spx = [[i] for i in range(int(nerve[0]))]
        else:
            if a >= len(nerve) or len(nerve[a]) == 0:
                break
            spx = [[i_(v) for v in s] for s in nerve[a]]
        out.append([{'s': s, 'pts': sorted(i_(v) for v in nin[a][c])}
                    for c, s in enumerate(spx)])
    return out


# --------------------------------------------------------------------------
# generators: every case is one of
#   {'X': coordinates, ...}                   a point cloud, real cover
#   {'D': matrix of ranks, 'sets': cover}     given metric and cover
# with maxr, maxdim, div, ov, p.

def stats(D, maxr):
    n = len(D)
    adj = [[j for j in range(n) if j > i and D[i][j] < maxr]
           for i in range(n)]
    e = sum(len(a) for a in adj)
    t = sum(1 for i in range(n) for j in adj[i] for k in adj[j]
            if D[i][k] < maxr)
    return e, t


def euclid(X):
    import numpy as np
    X = np.asarray(X, float)
    return np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(-1)).tolist()


def regions(X, div):
    """Number of regions of the cubical cover."""
    import math
    ext = [max(x[i] for x in X) - min(x[i] for x in X)
           for i in range(len(X[0]))]
    side = max(ext) / div
    k = 1
    for e in ext:
        k *= max(1, math.ceil(e / side))
    return k


def weight(X, D, maxr, div, ov):
    """Estimate of the number of local simplices over all cells."""
    n, k = len(X), len(X[0])
    lo = [min(x[i] for x in X) for i in range(k)]
    ext = [max(x[i] for x in X) - lo[i] for i in range(k)]
    side = max(ext) / div
    boxes = list(itertools.product(*[
        range(max(1, -int(-e // side))) for e in ext]))
    where = [set(b for b in boxes if all(
        lo[i] + side * b[i] - ov / 2 <= x[i] <= lo[i] + side * (b[i] + 1)
        + ov / 2 for i in range(k))) for x in X]
    w = 0
    for i in range(n):
        for j in range(i):
            if D[i][j] < maxr:
                w += 2 ** min(9, len(where[i] & where[j]))
                for h in range(j):
                    if D[i][h] < maxr and D[j][h] < maxr:
                        w += 2 ** min(9, len(where[i] & where[j] & where[h]))
    return w


def cloud(r, dims=None, tri=60, edges=60, work=2500):
    """A point cloud with exactly representable coordinates."""
    while True:
        kind = r.choice(['int', 'int', 'tie', 'clust', 'slab', 'latt',
                         'circle', 'grid'])
        d = r.choice(dims or [1, 2, 2, 3, 3])
        n = r.randint(2, 16)
        div = r.choice([1, 2, 2, 3, 4]) if d < 3 else r.choice([1, 2, 2])
        if kind == 'int':
            X = [[r.randint(0, 40) / 8. for _ in range(d)] for _ in range(n)]
        elif kind == 'tie':
            X = [[r.randint(0, 3) for _ in range(d)] for _ in range(n)]
        elif kind == 'clust':
            C = [[r.randint(0, 6) for _ in range(d)] for _ in range(3)]
            X = []
            for _ in range(n):
                c = r.choice(C)
                X.append([v + r.randint(-2, 2) / 4. for v in c])
        elif kind == 'slab':
            d = r.choice([2, 3, 4])
            c = r.choice([1, 2]) if d > 2 else 1
            X = [[r.randint(0, 4) * 2.5 for _ in range(c)]
                 + [r.randint(0, 3) * 2. for _ in range(d - c)]
                 for _ in range(n)]
            div = 2
        elif kind == 'latt':
            c, k = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1)])
            d = c + k
            m = r.choice([1, 2])
            X = [[r.choice([-1, 0, 0, 1]) for _ in range(c)]
                 + [r.randint(0, m) / float(m) for _ in range(k)]
                 for _ in range(n)]
            div = 2
        elif kind == 'circle':
            import math
            d = 2
            R = r.choice([8, 16])
            X = [[round(R * math.cos(2 * math.pi * i / n)) / 4.,
                  round(R * math.sin(2 * math.pi * i / n)) / 4.]
                 for i in range(n)]
        else:
            d = 2
            a, b = r.randint(2, 4), r.randint(2, 4)
            X = [[i, j] for i in range(a) for j in range(b)
                 if r.random() < .85]
            n = len(X)
        if r.random() < .5:
            X = [list(t) for t in sorted(set(tuple(x) for x in X))]
        r.shuffle(X)
        n = len(X)
        if n < 2:
            continue
        D = euclid(X)
        vals = sorted(set(v for row in D for v in row if v > 0))
        if not vals:
            continue
        L = max(max(x[i] for x in X) - min(x[i] for x in X)
                for i in range(len(X[0])))
        maxr = r.choice([r.choice(vals), r.uniform(.3, 1.) * L,
                         r.uniform(.2, .8) * vals[-1]])
        if maxr <= 0 or L == 0:
            continue
        e, t = stats(D, maxr)
        if e > edges or t > tri:
            continue
        if t == 0 and r.random() < .7:
            continue
        if regions(X, div) > 9:
            continue
        ov = maxr * r.choice([1., 1., 1.01, 1.3])
        if r.random() < .2:
            ov = r.choice([v for v in vals if v >= maxr] or [ov])
        if weight(X, D, maxr, div, ov) > work:
            continue
        return {'kind': kind, 'X': X, 'maxr': maxr, 'ov': ov, 'div': div,
                'maxdim': r.choice([1, 2, 2, 3, 3, 4]),
                'p': prime(r)}


def prime(r):
    return r.choice([2, 2, 3, 3, 5, 5, 7]) if r.random() < .93 else r.choice(
        [11, 101, 1009, 46337, 1000003])


def longline(r, n, m, d=2):
    """Many points along a line, a region for every few of them."""
    X = [[k + r.randint(0, 4) / 8.] + [r.randint(0, 3) / 4.
                                       for _ in range(d - 1)]
         for k in range(n)]
    r.shuffle(X)
    maxr = r.choice([1.25, 1.5, 1.75])
    return {'kind': 'line%d' % n, 'X': X, 'maxr': maxr, 'ov': maxr,
            'div': m, 'maxdim': 2, 'p': prime(r)}


def ring(r, n, m):
    """Many points around a circle: one class goes through all regions."""
    import math
    R = n / (2 * math.pi)
    X = [[round(64 * R * math.cos(2 * math.pi * i / n)) / 64.,
          round(64 * R * math.sin(2 * math.pi * i / n)) / 64.]
         for i in range(n)]
    r.shuffle(X)
    maxr = r.choice([1.25, 1.5, 2.25])
    return {'kind': 'ring%d' % n, 'X': X, 'maxr': maxr, 'ov': maxr,
            'div': m, 'maxdim': 2, 'p': prime(r)}


BIG = 99


def labelled(r, tri=70, edges=70, full=None, m=None, same=None):
    """Points labelled with the sets that contain them, adjacent only when
    the labels are comparable: every simplex lies in one of the sets."""
    m0 = m
    while True:
        m = m0 or r.choice([2, 3, 3, 4, 4, 4])
        labs = [frozenset(c) for k in range(1, m + 1)
                for c in itertools.combinations(range(m), k)]
        q = [0] + [r.choice([0, .5, 1, 1, 1.5]) for _ in range(m)]
        q[m] = full or r.choice([0, 0, 0, .5, 1, 2, 3, 4])
        q[m - 1] = r.choice([.8, 1, 1, 1.3])
        pts = []
        for lab in labs:
            k = q[len(lab)]
            pts += [lab] * (int(k) + (r.random() < k - int(k)))
        n = len(pts)
        r.shuffle(pts)
        hi = r.randint(2, 6)
        drop = r.choice([0, 0, .05, .15, .3])
        sm = r.choice([0, .3, .7]) if same is None else same
        late = r.choice([0, 1])
        D = [[0 if i == j else BIG for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                a, b = pts[i], pts[j]
                if (a < b or b < a or (a == b and r.random() < sm)) and \
                        r.random() >= drop:
                    w = r.randint(1, hi - 1)
                    if late and min(len(a), len(b)) == 1 and hi > 2:
                        w = r.randint((hi + 1) // 2, hi - 1)
                    D[i][j] = D[j][i] = w
        e, t = stats(D, hi)
        if n < 3 or e > edges or t > tri:
            continue
        sets = [[i for i in range(n) if s in pts[i]] for s in range(m)]
        return {'kind': 'lab', 'D': D, 'maxr': hi, 'sets': sets,
                'maxdim': r.choice([2, 3, 3, 4]), 'p': prime(r)}


def from_graph(r, pts, edges, kind, noise=0., hi=None, p=None, maxdim=3):
    """pts: list of (name, label); edges: {(a, b): weight}."""
    pts = list(pts)
    r.shuffle(pts)
    ix = {n: i for i, (n, _) in enumerate(pts)}
    n = len(pts)
    m = 1 + max(max(lab) for _, lab in pts)
    D = [[0 if i == j else BIG for j in range(n)] for i in range(n)]
    top = max(edges.values())
    for (a, b), w in edges.items():
        if noise and r.random() < noise:
            w = r.randint(1, top)
        if noise and r.random() < noise / 4:
            continue
        i, j = ix[a], ix[b]
        D[i][j] = D[j][i] = w
    return {'kind': kind, 'D': D, 'maxr': hi or top + r.choice([1, 2]),
            'sets': [[i for i in range(n) if s in pts[i][1]]
                     for s in range(m)],
            'maxdim': maxdim, 'p': p or prime(r)}


def thicken(r, pts, E, x, y, d):
    """Replace the pair of points x, y by the vertices of a cross polytope of
    dimension d: everything happens d - 1 rows higher."""
    lab = dict(pts)[x]
    nb = {}
    for (u, v), w in E.items():
        if (u in (x, y)) != (v in (x, y)):
            z, o = (u, v) if u in (x, y) else (v, u)
            nb.setdefault(o, w)
    poles = [(x, y)]
    low = min(E.values())
    for k in range(d - 1):
        q = ((x, k), (y, k))
        pts += [(q[0], lab), (q[1], lab)]
        for z in q:
            for o, w in nb.items():
                E[z, o] = w
            for pr in poles:
                for o in pr:
                    E[z, o] = low
        if (x, y) in E and r.random() < .5:
            E[q] = E[x, y]
        poles.append(q)


def tmpl_ext(r, noise=0., d=1):
    """A class of the column 2 that dies and continues in column 0 through an
    ambiguity in the column 1."""
    prs = list(itertools.combinations(range(3), 2))
    pts = [(x, (0, 1, 2)) for x in ('a', 'b', 'm0', 'm1')]
    pts += [(('e', q), q) for q in prs] + [(('f', i), (i,)) for i in range(3)]
    E = {}
    for x in 'ab':
        for m in ('m0', 'm1'):
            E[x, m] = 2
        for q in prs:
            E[x, ('e', q)] = 1
        for i in range(3):
            E[x, ('f', i)] = 1
    for q in prs:
        E[('e', q), 'm1'] = 2
        for i in q:
            E[('f', i), ('e', q)] = 1
    thicken(r, pts, E, 'a', 'b', d)
    return from_graph(r, pts, E, 'ext' + 'r' * (d - 1), noise,
                      maxdim=2 + d)


def tmpl_extm(r, noise=0., m=4):
    """A class of the column m - 1 that dies and continues in column 0, or
    (depending on what the filling point is joined to) in between."""
    pts = [(x, tuple(range(m))) for x in ('a', 'b', 'm0')]
    E = {('a', 'm0'): 2, ('b', 'm0'): 2}
    low = r.choice([2, 2, 3])
    for k in range(1, m):
        for q in itertools.combinations(range(m), k):
            pts.append((('q', q), q))
            E['a', ('q', q)] = E['b', ('q', q)] = 1
            if k >= low:
                E[('q', q), 'm0'] = 2
    for x, y in itertools.combinations([q for _, q in pts if len(q) < m], 2):
        if set(x) < set(y):
            E[('q', x), ('q', y)] = 1
    return from_graph(r, pts, E, 'extm', noise, maxdim=m)


def tmpl_susp(r, noise=0., m=3, comps=2, d=1, more=0):
    """Join of `comps` points with the boundary of a simplex: a class in the
    last column, killed late or not at all."""
    pts = [(('a', i), tuple(range(m))) for i in range(comps)]
    E = {}
    for k in range(1, m):
        for q in itertools.combinations(range(m), k):
            pts.append((('q', q), q))
    for x, y in itertools.combinations(pts, 2):
        a, b = set(x[1]), set(y[1])
        if a < b or b < a:
            E[x[0], y[0]] = 1 if noise == 0 else r.randint(1, 3)
    if r.random() < .6:
        E[('a', 0), ('a', 1)] = r.randint(2, 4)
    thicken(r, pts, E, ('a', 0), ('a', 1), d)
    # further sets which meet none of the others
    pts += [(('z', i), (m + i,)) for i in range(more)]
    return from_graph(r, pts, E, 'susp%d' % m + 'r' * (d - 1), noise,
                      maxdim=r.choice([m, m, m - 1, m + 1]) + d - 1)


def tmpl_sphere(r, noise=0., m=3, d=3, cones=2):
    """The boundary of a cross polytope of dimension d in all of m sets, with
    late cones over it in some of them."""
    al = tuple(range(m))
    pts = [((i, s), al) for i in range(d + 1) for s in (0, 1)]
    E = {(x[0], y[0]): 1 for x, y in itertools.combinations(pts, 2)
         if x[0][0] != y[0][0]}
    for k in range(r.randint(0, cones)):
        lab = tuple(sorted(r.sample(al, r.randint(1, m))))
        w = r.choice([1, 2, 3])
        for x, _ in pts[:2 * d + 2]:
            E[x, ('c', k)] = w
        pts.append((('c', k), lab))
    if r.random() < .5:
        E[(0, 0), (0, 1)] = r.randint(2, 4)
    return from_graph(r, pts, E, 'sphere%d' % d, noise,
                      maxdim=d + r.choice([1, 2]))


# facets of small complexes with torsion, and of two without
RP2 = [(0, 1, 4), (0, 1, 5), (0, 2, 3), (0, 2, 5), (0, 3, 4), (1, 2, 3),
       (1, 2, 4), (1, 3, 5), (2, 4, 5), (3, 4, 5)]
# a disc whose boundary goes three times round the triangle 0, 1, 2
MOORE3 = [(0, 1, 3), (1, 2, 3), (2, 3, 4), (0, 2, 4), (0, 1, 4), (1, 4, 5),
          (1, 2, 5), (0, 2, 5), (0, 5, 6), (0, 1, 6), (1, 2, 6), (2, 6, 7),
          (0, 2, 7), (0, 3, 7), (3, 4, 5), (3, 5, 6), (3, 6, 7)]
TORUS = [(i, (i + a) % 7, (i + 3) % 7) for i in range(7) for a in (1, 2)]


def tmpl_torsion(r, noise=0., facets=None, m=None, p=None):
    """Barycentric subdivision of a complex, its facets dealt to m sets: the
    maps between local homologies have coefficients other than one."""
    facets = facets or RP2
    m = m or r.choice([2, 3])
    own = list(range(m)) + [r.randrange(m) for _ in facets[m:]]
    if r.random() < .5:
        own.sort()
    else:
        r.shuffle(own)
    lab = {}
    for f, o in zip(facets, own):
        for k in range(1, len(f) + 1):
            for q in itertools.combinations(sorted(f), k):
                lab.setdefault(q, set()).add(o)
    pts = [(q, tuple(sorted(s))) for q, s in lab.items()]
    late = r.choice(facets) if r.random() < .5 else None
    E = {}
    for x, y in itertools.permutations(lab, 2):
        if set(x) < set(y):
            E[x, y] = 3 if y == late else 1 if noise == 0 else r.randint(1, 2)
    return from_graph(r, pts, E, 'tors%d' % len(facets), noise, maxdim=2,
                      p=p or r.choice([2, 2, 3, 3, 5]))


def tmpl_ext2(r, noise=0., d=1):
    """Two sets: a class of the column 1 that dies and continues as a sum of
    local classes of the column 0."""
    k = r.choice([1, 2, 2])
    pts = [(x, (0, 1)) for x in ('a', 'b')]
    pts += [(('m', i), (0, 1)) for i in range(k)]
    pts += [(('f', i), (i,)) for i in range(2)]
    E = {}
    for x in 'ab':
        for i in range(2):
            E[x, ('f', i)] = 1
        for i in range(k):
            E[x, ('m', i)] = 2 + r.choice([0, 0, i])
    for i in range(2):
        if r.random() < .5:
            E[('f', i), ('m', r.randrange(k))] = r.choice([2, 3, 4])
    thicken(r, pts, E, 'a', 'b', d)
    return from_graph(r, pts, E, 'ext2' + 'r' * (d - 1), noise,
                      maxdim=r.choice([2, 2, 3]) + d - 1)


def tmpl_amb(r, noise=0., d=1):
    """A class of the column 2 whose second differential is only zero up to
    the image of a first differential: the lift through one of two paths is
    corrected by the loop of both."""
    S = list(range(3))
    r.shuffle(S)
    a, b, c = S

    def lab(*x):
        return tuple(sorted(x))
    pts = [('u', lab(a, b, c)), ('v', lab(a, b, c)), ('m', lab(a, b)),
           ('n', lab(a, b)), ('q', lab(a, c)), ('r', lab(b, c)),
           ('fa', lab(a)), ('fb', lab(b)), ('fc', lab(c))]
    w = r.choice([(1, 2, 2, 2), (1, 1, 2, 2), (1, 1, 2, 1), (2, 2, 2, 2),
                  (1, 2, 2, 3)])
    E = {}
    for x in 'uv':
        E[x, 'n'], E[x, 'm'], E[x, 'q'], E[x, 'r'] = w[0], w[1], w[2], w[2]
        for f in ('fa', 'fb', 'fc'):
            E[x, f] = w[3]
    for f, ys in (('fa', 'mq'), ('fb', 'mr'), ('fc', 'qr')):
        for y in ys:
            E[f, y] = w[3]
    if r.random() < .5:
        E['u', 'v'] = max(w) + 1
    thicken(r, pts, E, 'u', 'v', d)
    return from_graph(r, pts, E, 'amb' + 'r' * (d - 1), noise,
                      maxdim=r.choice([2, 3]) + d - 1)


def tmpl_amb4(r, noise=0.):
    """As tmpl_amb with four sets: the correcting loop lies over a pair of
    sets where the lift itself vanishes."""
    S = list(range(4))
    r.shuffle(S)
    a, b, c, d = S

    def lab(*x):
        return tuple(sorted(x))
    pts = [('u', lab(*S)), ('v', lab(*S)), ('m', lab(a, b, d)),
           ('q', lab(a, c, d)), ('r', lab(b, c)),
           ('fb', lab(b)), ('fc', lab(c)), ('fd', lab(d))]
    w = r.choice([(1, 1), (2, 2), (1, 2)])
    E = {}
    for x in 'uv':
        for y in 'mqr':
            E[x, y] = w[1]
        for f in ('fb', 'fc', 'fd'):
            E[x, f] = w[0]
    for f, ys in (('fb', 'mr'), ('fc', 'qr'), ('fd', 'mq')):
        for y in ys:
            E[f, y] = w[0]
    return from_graph(r, pts, E, 'amb4', noise, maxdim=r.choice([2, 3]))


def tmpl_d3(r, noise=0.):
    """A class of the column 3 whose third differential is only zero up to
    the image of a second differential."""
    pts = [('a', range(4)), ('b', range(4))]
    E = {}
    tr = list(itertools.combinations(range(4), 3))
    prs = list(itertools.combinations(range(4), 2))
    for t in tr:
        for k in (0, 1):
            m = ('m', t, k)
            pts.append((m, t))
            E['a', m] = E['b', m] = 1
            for q in itertools.combinations(t, 2):
                E[('e', q), m] = 1
    for q in prs:
        pts.append((('e', q), q))
        E['a', ('e', q)] = E['b', ('e', q)] = 1
    w = r.choice([1, 2])
    for i in range(4):
        f = ('f', i)
        pts.append((f, (i,)))
        E[f, 'a'] = E[f, 'b'] = w
        for q in prs:
            if i in q:
                E[f, ('e', q)] = w
    for t in tr:
        k = r.choice([0, 1])
        for i in t:
            E[('f', i), ('m', t, k)] = w
    return from_graph(r, [(a, tuple(b)) for a, b in pts], E, 'd3', noise,
                      maxdim=4)


def units(r):
    """Radii for the ranks of a given metric: base + scale * rank."""
    return {'scale': r.choice([1., 1., .5, .3, 2., 1e-4, 1e-5, 1e4]),
            'base': r.choice([0., 0., 0., 1000.])}


def from_model(b, n):
    """A behaviour of MVPages as a case."""
    top = b['top'] + (n % 3 == 2)
    return {'kind': 'model', 'maxr': b['maxr'], 'sets': b['sets'],
            'maxdim': top, 'p': b['p'], 'name': 'model-%d' % n, 'must': 1,
            'D': [[v if v < b['maxr'] else BIG for v in row]
                  for row in b['w']], 'scale': [1., .3][n % 2]}


def model_inputs(run, cfgs, quick):
    """Explore MVPages; finished behaviours (a seeded part of them in the
    quick tier) saved for replay."""
    beh = []
    for c in cfgs:
        beh += run.behaviours('MVPages', cfg=c, name=c, timeout=1500)
    run.notes['model_behaviours_with_second_differential'] = sum(
        b['d2'] for b in beh)
    if run.tier == 'quick' and len(beh) > quick:
        k = -(-len(beh) // quick)
        beh = beh[run.seed % k::k]
    return run.save('mv.ndjson', beh)


def cliquecover(r, tri=70, edges=60):
    """A random graph with a cover by unions of maximal cliques."""
    while True:
        n, m = r.randint(4, 13), r.choice([2, 3, 3, 4])
        hi, dens = r.randint(2, 7), r.uniform(.2, .7)
        D = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                D[i][j] = D[j][i] = (r.randint(1, hi - 1)
                                     if r.random() < dens else BIG)
        e, t = stats(D, hi)
        if e > edges or t > tri or t == 0:
            continue
        nb = [set(j for j in range(n) if j != i and D[i][j] < hi)
              for i in range(n)]
        out = []

        def bk(R, P, X):
            if not P and not X:
                out.append(R)
                return
            for v in list(P):
                bk(R | {v}, P & nb[v], X & nb[v])
                P = P - {v}
                X = X | {v}
        bk(set(), set(range(n)), set())
        q = r.uniform(0, .5)
        sets = [set() for _ in range(m)]
        for c in out:
            sets[r.randrange(m)] |= c
            for s in sets:
                if r.random() < q:
                    s |= c
        if any(not s for s in sets):
            continue
        return {'kind': 'clq', 'D': D, 'maxr': hi,
                'sets': [sorted(s) for s in sets],
                'maxdim': r.choice([2, 3, 3, 4]), 'p': prime(r)}


def thick(r, noise):
    """A template in higher rows or columns."""
    k = r.randrange(8)
    c = (tmpl_torsion(r, noise) if k == 7 else
         tmpl_ext(r, noise, 2) if k == 0 else
         tmpl_ext2(r, noise, r.choice([2, 3])) if k == 1 else
         tmpl_amb(r, noise, 2) if k == 2 else
         tmpl_susp(r, noise, 2, 2, 3) if k == 3 else
         tmpl_susp(r, noise, 3, 2, 2) if k == 4 else
         tmpl_sphere(r, noise, r.choice([2, 3, 3]), r.choice([1, 2, 2, 3]))
         if k == 5 else
         tmpl_extm(r, noise, 3))
    return dict(c, thick=1)


def template(r):
    """One of the small templates, with or without noise."""
    if r.random() < .12:
        return thick(r, r.choice([0, 0, .05]))
    f = r.choice([tmpl_ext2, tmpl_amb, tmpl_amb, tmpl_amb4])
    return f(r, r.choice([0, .1, .1, .3]))


def small(r):
    """A random case whose total complex is small."""
    k = r.random()
    if k < .25:
        return cloud(r, tri=30, edges=30, work=450)
    if k < .5:
        return labelled(r, tri=35, edges=40)
    if k < .6:
        return cliquecover(r, tri=30, edges=30)
    if k < .7:
        return tmpl_ext(r, r.choice([0, .1, .3]))
    if k < .85:
        return template(r)
    return tmpl_susp(r, r.choice([0, .1, .3]), r.choice([2, 3, 3]),
                     r.choice([2, 2, 3]))


def mixed(r, tri=60, edges=60):
    """A random case."""
    k = r.random()
    if k < .35:
        return cloud(r, tri=tri, edges=edges)
    if k < .65:
        return labelled(r, tri=tri, edges=edges)
    if k < .75:
        return cliquecover(r, tri=tri, edges=edges)
    if k < .8:
        return tmpl_ext(r, r.choice([0, .1, .3]))
    if k < .89:
        return template(r)
    if k < .95:
        return tmpl_susp(r, r.choice([0, .1, .3]), r.choice([2, 3, 3]),
                         r.choice([2, 2, 3]))
    if tri < 120:
        return tmpl_susp(r, r.choice([0, .1]), 3, 3)
    return tmpl_d3(r, r.choice([0, 0, .05]))


# --------------------------------------------------------------------------
# running a case

class Skip(Exception):
    pass


def squares(n):
    """Four squares with sum n."""
    def root(m):
        import math
        return math.isqrt(m)
    for a in range(root(n), -1, -1):
        for b in range(min(a, root(n - a * a)), -1, -1):
            m = n - a * a - b * b
            for c in range(min(b, root(m)), -1, -1):
                d = root(m - c * c)
                if d * d == m - c * c:
                    return [a, b, c, d]


def realize(D, maxr):
    """Points with integer coordinates whose distances compare to each other
    and to the returned radius as the ranks D do to maxr.  The squared
    distances are 2 (S - g), where g falls as the rank grows."""
    import math
    import numpy as np
    n = len(D)
    vals = sorted(set([maxr] + [v for row in D for v in row if v < maxr]))
    g = {v: len(vals) - k for k, v in enumerate(vals)}
    cols = []
    for i in range(n):
        for j in range(i):
            if D[i][j] in g and D[i][j] <= maxr:
                x = [0] * n
                x[i], x[j] = 1, g[D[i][j]]
                cols.append(x)
    norm = [sum(x[i] ** 2 for x in cols) for i in range(n)]
    S = max(norm) + len(vals) + 1
    for k in range(4):
        for i in range(n):
            x = [0] * n
            x[i] = squares(S - norm[i])[k]
            cols.append(x)
    return np.array(cols, float).T.copy(), math.sqrt(2. * (S - g[maxr]))


def run(case, M):
    """Run the pipeline on a case: (spectral sequence, ranks, cells)."""
    import numpy as np
    if 'X' in case:
        Env.D = Env.cover = None
        X = np.array(case['X'], dtype=int if case.get('int') else float)
        D = euclid(X)
        args = (X, case['maxr'], case['maxdim'], case['div'], case['ov'],
                case['p'])
        import permaviss.covers.cubical_cover as cc
        cells = cells_of(cc.generate_cover(case['div'], case['ov'], X))
        sc = 1.
    else:
        sc = case.get('scale', 1.)
        base = case.get('base', 0.)
        D = [[v and base + v * sc for v in row] for row in case['D']]
        Env.D, Env.cover = D, case['sets']
        Env.d_used = Env.c_used = 0
        X = np.arange(len(D)).reshape(-1, 1).astype(float)
        args = (X, base + case['maxr'] * sc, case['maxdim'], 1, 1., case['p'])
        if Env.embed:
            X, mr = realize(case['D'], case['maxr'])
            Env.D, Env.P = None, X
            D = euclid(X)
            args = (X, mr) + args[2:]
        cells = cells_of(as_cover(case['sets']))
    try:
        ss = M.create_MV_ss(*args)
    finally:
        given = Env.cover is not None
        Env.D = Env.cover = Env.P = None
    if given and not Env.c_used:
        raise Skip('the code does not use the stand-in for the cover')
    if given and not (Env.embed or Env.d_used or Pool.script or Pool.real):
        Env.embed = True        # real points with such distances instead
        return run(case, M)
    return ss, Levels(D, args[1]), cells, args


class Levels(object):
    """Ranks of the distances and of the maximum radius; equal up to 1e-7."""
    def __init__(self, D, maxr):
        vals = sorted(set([0., float(maxr)] + [
            float(v) for row in D for v in row if v < maxr]))
        self.v = []
        for x in vals:
            if not self.v or x - self.v[-1] > 1e-6:
                self.v.append(x)
            elif x - self.v[-1] > 1e-9:
                raise Skip('nearly equal distances')
        self.maxr = self(maxr)
        big = self.maxr + 1
        self.w = [[self(v) if v < maxr else big for v in row] for row in D]

    def __call__(self, x):
        x = float(x)
        import bisect
        k = bisect.bisect_left(self.v, x - 5e-7)
        if k < len(self.v) and abs(self.v[k] - x) <= 5e-7:
            return k
        raise Malformed('radius %r is none of the distances' % x)

    def coarse(self):
        return list(range(len(self.v)))

    def bars(self, B):
        import numpy as np
        a = np.asarray(B.barcode if hasattr(B, 'barcode') else B)
        if a.size == 0:
            return []
        if a.ndim != 2 or a.shape[1] != 2:
            raise Malformed('barcode of shape %r' % (a.shape,))
        return [[self(x), self(y)] for x, y in a.tolist()]


# --------------------------------------------------------------------------
# comparing whole spectral sequences

FIELDS = ['nerve', 'points_IN', 'page_dim_matrix', 'first_page_barcodes',
          'Hom', 'Im', 'PreIm', 'Hom_reps', 'extensions',
          'order_diagonal_basis', 'persistent_homology']


def plain(x):
    """Nested lists of numbers denoting a value of the library."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple, range)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        f = round(float(x), 9)
        return int(f) if f == int(f) else f
    if x is None or isinstance(x, str):
        return x
    if hasattr(x, 'barcode'):
        b = np.asarray(x.barcode)
        return ['basis', plain(b.reshape(-1, 2) if b.size else []),
                plain(np.asarray(x.coordinates)) if b.size else []]
    if hasattr(x, 'ref') and hasattr(x, 'coord'):
        return ['chains', plain(x.ref), plain(x.coord)]
    return type(x).__name__


def tokens(ss):
    import hashlib
    import json
    return [[k, hashlib.sha1(json.dumps(plain(getattr(ss, k, None)))
                             .encode()).hexdigest()] for k in FIELDS]


class Baton(object):
    """Two computations in two threads, of which one runs at a time; at every
    stage of its pool a computation may have to hand over.  `schedule` is a
    sequence of 0/1: who runs the next stage."""
    def __init__(self, schedule):
        self.s = list(schedule)
        self.k = 0
        self.cv = threading.Condition()
        self.done = [False, False]
        self.me = threading.local()
        self.turn = self.s[0]
        self.log = []

    def _advance(self):
        self.k += 1
        t = self.s[self.k % len(self.s)]
        self.turn = t if not self.done[t] else 1 - t

    def stage(self):
        i = getattr(self.me, 'i', None)
        if i is None:
            return
        with self.cv:
            self.log.append(i)
            self._advance()
            self.cv.notify_all()
            while self.turn != i and not self.done[1 - i]:
                self.cv.wait(1)

    def run(self, jobs):
        out = [None, None]

        def body(i):
            self.me.i = i
            with self.cv:
                while self.turn != i and not self.done[1 - i]:
                    self.cv.wait(1)
            try:
                out[i] = (jobs[i](), '')
            except Exception as e:
                out[i] = (None, type(e).__name__)
            with self.cv:
                self.done[i] = True
                self.turn = 1 - i
                self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i,), daemon=True)
              for i in range(2)]
        for t in ts:
            t.start()
        for t in ts:
            while t.is_alive():
                t.join(.2)
        return out
