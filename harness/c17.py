"""C17: results do not depend on the schedule of the parallel work."""
import random
from harness import gen, mv
from harness.core import CaseTimeout, Malformed

COUNT = {'quick': 72, 'thorough': 600}
BUDGET = {'quick': 13, 'thorough': 400}
RUNS = {'quick': 5, 'thorough': 8}
CASE_LIMIT = 200
M = None


def worker_init():
    global M
    M = mv.install()


def cases(seed, tier, extra):
    lib = {}
    for b in gen.load(extra):
        lib.setdefault(b['n'], []).append(b['log'])
    for n in lib:
        random.Random(seed + n).shuffle(lib[n])
    r = gen.rng('C17', seed, 'main')
    c = mv.longline(r, 140, 70)
    yield dict(c, op='sched', name=c['kind'], must=1, lib=lib, pick=0, runs=3,
               real=0)
    for n in range(COUNT[tier]):
        k = r.random()
        if n < 6:
            c = mv.tmpl_ext(r) if n % 2 else mv.tmpl_susp(r, 0, 2, 2)
        elif k < .6:
            c = mv.cloud(r, dims=[1, 1, 2, 2, 2, 3], tri=25, edges=30,
                         work=300)
        elif k < .8:
            c = mv.labelled(r, tri=30, edges=30)
        else:
            c = mv.tmpl_ext(r, .1)
        yield dict(c, op='sched', name='%s-%d' % (c['kind'], n), must=n < 10,
                   lib=lib, pick=n, runs=RUNS[tier],
                   real=[0, 2, 0, 3, 0, 0, 0, 1][n % 8] if n < 16 else 0)


def once(c, setup):
    """One run of the pipeline: schedules, result, exception."""
    P = mv.Pool
    P.script = P.before = None
    P.real = None
    P.isolate, P.log, P.chunk = True, [], None
    P.order = staticmethod(lambda n: list(range(n)))
    exc, out = '', []
    try:
        setup(P)
        ss = mv.run(c, M)[0]
        out = mv.tokens(ss)
    except (CaseTimeout, Malformed, mv.Skip):
        raise
    except Exception as e:
        exc = type(e).__name__
    finally:
        log = P.log
        P.script, P.real, P.isolate, P.log = None, None, True, None
        P.cpus = None
    return {'sched': log, 'out': out, 'exc': exc}


def record(c):
    lib = {int(k): v for k, v in c['lib'].items()}
    count = [c['pick'] * 131]

    def scripted(P):
        r = random.Random('%s/%s' % (c['name'], count[0]))

        def script(n):
            count[0] += 1
            if n in lib:
                return [tuple(x) for x in lib[n][count[0] % len(lib[n])]]
            w = r.randint(1, min(n, 8))
            order = list(range(n))
            r.shuffle(order)
            return [(t, r.randrange(w)) for t in order]
        P.script = script
        P.cpus = r.choice([None, 1, 2, 3, 5, 16])

    def serial(P):
        P.isolate, P.log = False, None

    try:
        runs = [once(c, serial)]
        runs[0]['sched'] = []
        for k in range(c['runs']):
            runs.append(once(c, scripted))
        if c['real']:
            def real(P):
                P.real, P.log = c['real'], None
            runs.append(once(c, real))
            runs[-1]['sched'] = []
    except mv.Skip:
        return {'events': []}
    return {'runs': runs}


def check(run):
    beh = run.behaviours('MVPipeline')
    beh += run.behaviours('MVPipeline', cfg='MVPipeline_four',
                          name='MVPipeline_four')
    if run.tier == 'thorough':
        beh += run.behaviours('MVPipeline', cfg='MVPipeline_deep',
                              name='MVPipeline_deep')
    ev = run.drive(run.save('sched.ndjson', beh))
    run.judge('TraceSched', ev)
    run.notes['schedules_of_stages_replayed'] = sum(
        len(r['sched']) for e in ev for r in e.get('runs', []))
    run.assumptions = [
        'workers are separate processes (forked by the harness, which also '
        'decides which task runs where and in which order); some runs use '
        'the real multiprocessing pool with 1, 2 or 3 workers']
    return run.finish(rule='a sequential run without copies, then runs under '
                      'schedules of the model; all parts of the spectral '
                      'sequence must agree')
