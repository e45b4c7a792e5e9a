"""Shared machinery of the checks.

A check = (1) TLC explores the design specification(s) of the property
exhaustively within small constants; (2) behaviours/inputs exported by TLC are
replayed into the code of /repo; (3) calls recorded from the code of /repo are
judged, one by one, by a trace specification run by TLC.  Python only drives
the code, turns radii into ranks, and serialises; the verdict is TLC's.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
JAR = ('/opt/veriftools/tla/tla2tools.jar:'
       '/opt/veriftools/tla/CommunityModules-deps.jar')
NPROC = int(os.environ.get('VERIF_PROCS', '8'))
INT_MAX = 2 ** 31 - 1


class Malformed(Exception):
    """The code under test returned something of the wrong shape or type."""


class CaseTimeout(Exception):
    pass


def env_for_code():
    env = dict(os.environ)
    env['PYTHONPATH'] = os.path.join(REPO, 'src') + ':' + VERIF
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['OMP_NUM_THREADS'] = '1'
    env['MKL_NUM_THREADS'] = '1'
    env['NPY_DISABLE_CPU_FEATURES'] = (
        'AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL')
    env['PYTHONHASHSEED'] = '0'
    return env


# --------------------------------------------------------------------------
# serialisation

def i_(x, what='value'):
    """An integer-valued number as an int that fits TLC's integers."""
    try:
        f = float(x)
    except Exception:
        raise Malformed('%s is not a number: %r' % (what, x))
    if f != f or f in (float('inf'), float('-inf')):
        raise Malformed('%s is not finite' % what)
    r = int(round(f))
    if r != f:
        raise Malformed('%s is not an integer: %r' % (what, x))
    if abs(r) > INT_MAX:
        raise Malformed('%s does not fit 32 bits: %r' % (what, x))
    return r


def ivec(v, n=None, what='vector'):
    import numpy as np
    a = np.asarray(v)
    if a.size == 0 and (n is None or n == 0):
        return []
    if a.ndim != 1 or (n is not None and a.shape[0] != n):
        raise Malformed('%s has shape %r, expected (%r,)' % (
            what, a.shape, n))
    return [i_(x, what) for x in a.tolist()]


def imat(M, m, n, what='matrix'):
    """m x n integer matrix as a list of rows; empty when m*n == 0."""
    import numpy as np
    a = np.asarray(M)
    if m * n == 0:
        if a.size != 0:
            raise Malformed('%s should be empty, has shape %r' % (
                what, a.shape))
        return [[] for _ in range(m)]
    if a.shape != (m, n):
        raise Malformed('%s has shape %r, expected %r' % (
            what, a.shape, (m, n)))
    return [[i_(x, what) for x in row] for row in a.tolist()]


# --------------------------------------------------------------------------
# driving the code under test

def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(record, case, limit):
    """Run record(case) -> event; exceptions become part of the event."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        ev = record(case)
        ev.setdefault('exc', '')
    except Malformed as e:
        ev = {'exc': 'Malformed', '_msg': str(e)[:300]}
    except CaseTimeout:
        ev = {'exc': 'Timeout', '_msg': 'no result within %g s' % limit}
    except Exception as e:  # raised by the code under test
        if _renamed(e):
            return {'events': []}
        ev = {'exc': type(e).__name__,
              '_msg': (str(e) + ' @ ' + _where(e))[:300]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ev


def _renamed(e):
    """The harness asked a spectral sequence (or its chains) for a field
    which this version of the code does not have."""
    if not isinstance(e, AttributeError):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    return type(getattr(e, 'obj', None)).__name__ in (
        'spectral_sequence', 'local_chains') and bool(
            tb) and tb[-1].filename.startswith(VERIF)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return ''
    f = tb[-1]
    return '%s:%s' % (os.path.basename(f.filename), f.name)


def call(f, *a, **k):
    """Call the code; returns (result, exception name)."""
    try:
        return f(*a, **k), ''
    except (CaseTimeout, Malformed):
        raise
    except Exception as e:
        return None, type(e).__name__


class quiet(object):
    """Silence the prints of the library."""
    def __enter__(self):
        self.o = sys.stdout
        self.f = open(os.devnull, 'w')
        sys.stdout = self.f

    def __exit__(self, *a):
        sys.stdout = self.o
        self.f.close()


def load_property(pid):
    import importlib
    return importlib.import_module('harness.' + pid.lower())


def worker_main(argv):
    """python -m harness.core worker PID shard nshards seed tier extra out"""
    pid, shard, nsh, seed, tier, extra, out = argv
    shard, nsh, seed = int(shard), int(nsh), int(seed)
    mod = load_property(pid)
    limit = getattr(mod, 'CASE_LIMIT', 60)
    budget = getattr(mod, 'BUDGET', {}).get(
        tier, 120 if tier == 'quick' else 1500)
    t0 = time.time()
    with open(out, 'w') as f:
        with quiet():
            if hasattr(mod, 'worker_init'):
                mod.worker_init()
            for n, case in enumerate(mod.cases(seed, tier, extra)):
                if n % nsh != shard:
                    continue
                if budget and time.time() - t0 > budget and not case.get(
                        'must'):
                    continue
                t1 = time.time()
                ev = guarded(mod.record, case, limit)
                t1 = round(time.time() - t1, 2)
                evs = ev.pop('events', None)
                if evs is None:
                    evs = [ev]
                if not evs:
                    f.write(json.dumps({'_skip': 1, '_n': n}) + '\n')
                for sub in evs:
                    sub.setdefault('exc', '')
                    sub.setdefault('op', case.get('op', ''))
                    sub['_case'] = case.get('name', 'case-%d' % n)
                    sub['_n'] = n
                    sub['_t'] = t1
                    if sub['exc'] and sub.get('_show') is None:
                        sub['_show'] = str(_short(case))[:600]
                    f.write(json.dumps(sub) + '\n')
                if any(sub['exc'] == 'Timeout' for sub in evs):
                    break       # do not wait for the next one


def _short(case):
    try:
        return json.dumps(case, default=lambda o: getattr(
            o, 'tolist', lambda: str(o))())
    except Exception:
        return repr(case)


def run_drivers(pid, seed, tier, extra, scratch, nproc=NPROC):
    """Returns the list of recorded events of all shards, in case order."""
    procs = []
    for s in range(nproc):
        out = os.path.join(scratch, 'drv-%s-%d.ndjson' % (
            os.path.basename(extra) or 'main', s))
        log = open(out + '.err', 'w')
        procs.append((subprocess.Popen(
            [PY, '-m', 'harness.core', 'worker', pid, str(s), str(nproc),
             str(seed), tier, extra, out], cwd=scratch, env=env_for_code(),
            stdout=subprocess.DEVNULL, stderr=log), out))
    events = []
    end = time.time() + (420 if tier == 'quick' else 6000)
    for p, out in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            with open(out) as f:    # the last line may be incomplete
                done = [x for x in f if x.endswith('\n')]
            events.extend(json.loads(x) for x in done)
            events.append({'op': '', 'exc': 'Timeout', '_n': 10 ** 9, '_t': 0,
                           '_case': 'hanging', '_msg': 'a call never returns'})
            continue
        if rc != 0:
            raise MachineryError('driver shard failed (rc %s): %s' % (
                rc, open(out + '.err').read()[-2000:]))
        with open(out) as f:
            events.extend(json.loads(x) for x in f)
    events.sort(key=lambda e: e['_n'])
    return events


def no_skips(events, notes):
    """Count and drop the cases of which nothing could be recorded."""
    k = sum('_skip' in e for e in events)
    if k:
        notes['cases_without_record'] = notes.get(
            'cases_without_record', 0) + k
    return [e for e in events if '_skip' not in e]


# --------------------------------------------------------------------------
# TLC

class MachineryError(Exception):
    pass


def tlc(module, scratch, cfg=None, env=None, workers=NPROC, timeout=800,
        heap='6g', extra=(), name=None):
    """Run TLC on spec/<module>.tla. Returns a dict with counts and output."""
    name = name or module
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC',
           '-XX:ParallelGCThreads=4',
           '-Djava.io.tmpdir=' + scratch, '-cp', JAR, 'tlc2.TLC',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg'),
           ] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s' % name)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode('utf8', 'replace')
    res = {'module': name, 'rc': r.returncode, 'out': out,
           'wall': round(time.time() - t0, 2), 'generated': 0, 'distinct': 0}
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        res['generated'], res['distinct'] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'depth of the complete state graph search is (\d+)', out)
    if m:
        res['depth'] = int(m[-1])
    return res


def model_check(module, scratch, **k):
    """A design specification must be accepted by TLC: anything else is an
    error of the machinery (the specification does not depend on /repo)."""
    r = tlc(module, scratch, **k)
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        raise MachineryError('design spec %s rejected:\n%s' % (
            r['module'], r['out'][-3000:]))
    return r


BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"\s*>>')


def judge(module, events, scratch, name=None, **k):
    """Let TLC judge every event. Returns (bad list, tlc result)."""
    path = os.path.join(scratch, (name or module) + '.ndjson')
    
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps({x: y for x, y in e.items()
                                if x[0] != '_'}) + '\n')
    r = tlc(module, scratch, env={'TRACE_FILE': path}, name=name, **k)
    bad = [(int(a), c) for a, c in BAD.findall(r['out'])]
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        raise MachineryError('trace spec %s failed:\n%s' % (
            module, r['out'][-3000:]))
    return bad, r


# --------------------------------------------------------------------------
# the run of one check

class Run(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.bad = [], [], []
        self.assumptions, self.notes = [], {}
        self.exhaustive = {}

    def rng(self, *salt):
        return random.Random('%s/%s/%s' % (self.pid, self.seed, salt))

    # 1: design ------------------------------------------------------------
    def design(self, module, **k):
        r = model_check(module, self.scratch, **k)
        self._count(r)
        return r

    def behaviours(self, module, **k):
        """Model check and return the exported finished behaviours."""
        env = dict(k.pop('env', None) or {})
        env['EXPORT'] = '1'
        r = self.design(module, env=env, **k)
        out, seen = [], set()
        for line in r['out'].splitlines():
            if line.startswith('"OUT '):
                s = json.loads(line)[4:]
                if s not in seen:
                    seen.add(s)
                    out.append(json.loads(s))
        if not out:
            raise MachineryError('no behaviours exported by ' + module)
        out.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.notes['behaviours_replayed_' + r['module']] = len(out)
        return out

    def save(self, name, objs):
        path = os.path.join(self.scratch, name)
        with open(path, 'w') as f:
            for o in objs:
                f.write(json.dumps(o) + '\n')
        return path

    def _count(self, r):
        self.states += r['distinct']
        self.transitions += max(0, r['generated'])
        self.models.append({'module': r['module'], 'distinct': r['distinct'],
                            'generated': r['generated'], 'wall': r['wall']})

    # 2/3: conformance -----------------------------------------------------
    def drive(self, extra='', nproc=NPROC):
        return no_skips(run_drivers(self.pid, self.seed, self.tier, extra,
                                    self.scratch, nproc), self.notes)

    def judge(self, module, events, **k):
        if not events:
            if self.notes.get('cases_without_record'):
                # this version of the code gives no access to what is judged
                self.notes['nothing_recorded_for'] = module
                return []
            raise MachineryError('no events recorded for ' + module)
        bad, r = judge(module, events, self.scratch, **k)
        want = k.get('expect_states')
        self._count(r)
        self.traces += len(events)
        for idx, clause in sorted(set(bad)):
            self.bad.append((clause, events[idx - 1], module))
        step = max(1, len(events) // 3)
        for e in events[::step][:3]:
            s = json.dumps(e)
            self.samples.append({'spec': module, 'event': (
                json.loads(s) if len(s) < 1500 else s[:1500] + '...')})
        return bad

    def fail(self, clause, event, module=''):
        self.bad.append((clause, event, module))

    def finish(self, level='model_checking', rule=''):
        known = load_known(self.pid)
        ev_dir = os.path.join(VERIF, 'evidence')
        os.makedirs(ev_dir, exist_ok=True)
        new, kn = [], []
        for clause, event, module in self.bad:
            k = match_known(known, clause, event)
            (kn if k else new).append((clause, event, module, k))
        replay = None
        if new:
            replay = os.path.join(ev_dir, 'replay-%s.json' % self.pid)
            with open(replay, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed,
                           'tier': self.tier, 'violations': [
                               {'clause': c, 'spec': m, 'event': e}
                               for c, e, m, _ in new[:20]]}, f, indent=1)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples[:8], 'tlc_runs': self.models,
               'rule': rule}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        with open(os.path.join(ev_dir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(x[3]['what'] for x in kn)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if new:
            seen = {}
            for c, e, m, _ in new:
                seen.setdefault(c, []).append(e)
            for c in seen:
                e = seen[c][0]
                print('clause %-32s %4d event(s), e.g. %s %s' % (
                    c, len(seen[c]), e.get('_case'),
                    json.dumps(e)[:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        print('%s: held on %d recorded executions; TLC: %d distinct states; '
              '%.1f s' % (self.pid, self.traces, self.states,
                          time.time() - self.t0))
        return 0


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            k = json.loads(line)
            if k.get('status') == 'known' and k.get('property') == pid:
                out.append(k)
    return out


def match_known(known, clause, event):
    for k in known:
        if k['clause'] == clause and k['case'] == event.get('_case'):
            return k
    return None


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    run = Run(pid, tier, seed)
    try:
        mod = load_property(pid)
        return mod.check(run)
    except MachineryError as e:
        print('MACHINERY ERROR in check %s: %s' % (pid, e))
        return 3
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'worker':
        worker_main(sys.argv[2:])
    else:
        sys.path.insert(0, VERIF)
        sys.exit(main(sys.argv[1:]))
