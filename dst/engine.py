"""Deterministic-simulation engine: pristine zygote, one fork per simulated execution, worker pool,
seed derivation, minimisation, replay files, known findings, evidence."""
import collections
import gc
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import re
import select
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out')
REPO = os.environ.get('GALGEBRA_REPO', '/repo')
RUN_TIMEOUT = 120.0          # wall seconds for one simulated execution


class HarnessError(Exception):
    pass


class Timeout(HarnessError):
    """an execution did not end: 'stuck' if it was waiting, not computing"""
    def __init__(self, msg, stuck=False):
        super().__init__(msg)
        self.stuck = stuck


def derive(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(*parts):
    return random.Random(derive(*parts))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- forked executions
def descendants(pid):
    """pid and the processes it started, with the cpu seconds they used"""
    kids, cpu = collections.defaultdict(list), {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    x = f.read().rsplit(')', 1)[1].split()
            except OSError:
                continue
            kids[int(x[1])].append(int(d))
            cpu[int(d)] = (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
    out, todo = {}, [pid]
    while todo:
        p = todo.pop()
        out[p] = cpu.get(p, 0.0)
        todo += kids[p]
    return out


def fork_call(fn, *args, timeout=None, quiet=True):
    """Run fn(*args) in a forked child of this (pristine) process; return its value."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            if quiet:
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                sys.stdout = sys.__stdout__ = open(os.devnull, 'w')
                sys.stderr = sys.__stderr__ = open(os.devnull, 'w')
            try:
                val = ('ok', fn(*args))
                data = pickle.dumps(val)
            except BaseException as e:      # noqa: a harness failure, reported as one
                data = pickle.dumps(('err', traceback.format_exc() + '\n' + repr(e)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = time.monotonic() + (timeout or RUN_TIMEOUT)
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                family = descendants(pid)
                for p in family:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                limit = timeout or RUN_TIMEOUT
                stuck = sum(family.values()) < 0.05 * limit
                raise Timeout('the run did not end within %.0f s%s' % (
                    limit, ' and was waiting for something that does not happen' if stuck else ''), stuck)
            rd, _, _ = select.select([r], [], [], min(left, 5.0))
            if rd:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    break
                buf.append(chunk)
    finally:
        os.close(r)
        try:
            _, status = os.waitpid(pid, 0)
        except ChildProcessError:
            status = 0
    data = b''.join(buf)
    if not data:
        raise HarnessError('simulated run died without a result (status %r)' % status)
    kind, val = pickle.loads(data)
    if kind == 'err':
        raise HarnessError('exception in the harness:\n' + val)
    return val


# ---------------------------------------------------------------- one run of one property
def empty_stats():
    return {'count': collections.Counter(), 'sets': collections.defaultdict(set)}


class Result:
    """What a property's run() returns (inside a worker)."""
    def __init__(self):
        self.violations = []          # list of {'cls','msg','sig'}
        self.count = collections.Counter()
        self.sets = {}                # name -> set of hashes, united over runs
        self.nontrivial = False
        self.key = None               # hash that identifies the case
        self.sample = None
        self.log = []                 # event log; its digest is compared by the determinism test

    def inc(self, k, n=1):
        self.count[k] += n

    def add(self, k, v):
        self.sets.setdefault(k, set()).add(v)

    def violate(self, cls, msg, sig=None):
        self.violations.append({'cls': cls, 'msg': str(msg)[:3000], 'sig': sig or cls})


def load_known(prop_id):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data['findings'] if x['property'] == prop_id and x['status'] == 'finding']


def split_known(res, known):
    """-> (unlisted violations, {finding id: message})"""
    new, old = [], {}
    for v in res.violations:
        for k in known:
            if k['cls'] == v['cls'] and re.fullmatch(k['sig'], v['sig']):
                old[k['id']] = k['text']
                break
        else:
            new.append(v)
    return new, old


def run_plan(prop, plan):
    res = Result()
    prop.run(plan, res)
    return res


def _worker(prop, seed, tier, nruns, counter, conn, known, t_end):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= nruns or time.monotonic() > t_end:
                break
            plan = prop.gen(rng_for(seed, prop.id, i), tier, i)
            plan['run'] = i
            t0 = time.monotonic()
            try:
                res = run_plan(prop, plan)
            except Timeout as e:
                if not e.stuck:         # a long computation, or one that never ends: judged by how many there are
                    conn.send(('abandoned', i, plan, str(e)))
                    continue
                conn.send(('violation', i, plan, [{'cls': 'hang', 'msg': str(e), 'sig': 'hang'}]))
                with counter.get_lock():
                    counter.value = max(counter.value, nruns)
                break
            except Exception:
                conn.send(('error', i, 'harness', traceback.format_exc(), plan))
                with counter.get_lock():
                    counter.value = max(counter.value, nruns)
                break
            new, old = split_known(res, known)
            conn.send(('run', i, res.count, res.sets, res.nontrivial,
                       res.key or digest(plan), res.sample, new, old, time.monotonic() - t0,
                       digest(res.log)))
            if new:
                conn.send(('violation', i, plan, new))
                with counter.get_lock():
                    counter.value = max(counter.value, nruns)
    except BaseException:
        conn.send(('error', -1, 'harness', traceback.format_exc(), None))
    finally:
        conn.send(('done',))
        conn.close()
        os._exit(0)


def sweep(prop, seed, tier, nruns, workers, t_cap, progress=False):
    ctx = multiprocessing.get_context('fork')
    counter = ctx.Value('q', 0)
    known = load_known(prop.id)
    t0 = time.monotonic()
    conns, procs = [], []
    for _ in range(workers):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker,
                        args=(prop, seed, tier, nruns, counter, b, known, t0 + t_cap))
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    agg = {'count': collections.Counter(), 'sets': collections.defaultdict(set), 'runs': 0,
           'nontrivial': set(), 'samples': {}, 'violations': {}, 'errors': [], 'known': {},
           'logs': {}, 'slowest': 0.0, 'cpu': 0.0, 'abandoned': {}}
    live = list(conns)
    while live:
        for c in multiprocessing.connection.wait(live):
            try:
                m = c.recv()
            except EOFError:
                live.remove(c)
                agg['errors'].append((-1, 'harness', 'worker died', None))
                continue
            if m[0] == 'done':
                live.remove(c)
            elif m[0] == 'run':
                _, i, count, sets, nontriv, key, sample, new, old, dt, lg = m
                agg['runs'] += 1
                agg['count'].update(count)
                for k, s in sets.items():
                    agg['sets'][k] |= s
                if nontriv:
                    agg['nontrivial'].add(key)
                if sample is not None and len(agg['samples']) < 400:
                    agg['samples'][i] = sample
                agg['known'].update(old)
                agg['logs'][i] = lg
                if dt > agg['slowest']:
                    agg['slowest'], agg['slowest_run'] = dt, i
                agg['cpu'] += dt
                if progress and agg['runs'] % 50 == 0:
                    print('  %d runs %.0fs' % (agg['runs'], time.monotonic() - t0), file=sys.stderr)
            elif m[0] == 'violation':
                agg['violations'][m[1]] = (m[2], m[3])
            elif m[0] == 'abandoned':
                agg['abandoned'][m[1]] = (m[2], m[3])
            elif m[0] == 'error':
                agg['errors'].append(m[1:])
    for p in procs:
        p.join()
    if len(agg['abandoned']) >= 5 and len(agg['abandoned']) > 0.03 * agg['runs'] and not agg['violations']:
        i = min(agg['abandoned'])
        agg['violations'][i] = (agg['abandoned'][i][0], [{'cls': 'no progress', 'sig': 'no progress',
                                'msg': '%d of %d runs do not end; run %d: %s' % (
                                    len(agg['abandoned']), agg['runs'] + len(agg['abandoned']), i, agg['abandoned'][i][1])}])
    agg['wall'] = time.monotonic() - t0
    return agg


# ---------------------------------------------------------------- minimisation
def _fails(prop, plan, cls, known):
    try:
        new, _ = split_known(run_plan(prop, plan), known)
    except Timeout as e:
        return {'cls': cls, 'msg': str(e), 'sig': cls} if cls == ('hang' if e.stuck else 'no progress') else None
    except HarnessError:
        return None
    for v in new:
        if v['cls'] == cls:
            return v
    return None


def minimise(prop, plan, cls, known, t_cap=90.0, max_tries=600):
    t_end = time.monotonic() + t_cap
    tries = 0
    best = plan
    changed = True
    while changed and time.monotonic() < t_end and tries < max_tries:
        changed = False
        for key in prop.lists:
            lst = best.get(key)
            if not lst:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and time.monotonic() < t_end and tries < max_tries:
                i = 0
                while i < len(lst) and time.monotonic() < t_end and tries < max_tries:
                    cand = dict(best)
                    cand[key] = lst[:i] + lst[i + size:]
                    tries += 1
                    if _fails(prop, cand, cls, known):
                        best, lst, changed = cand, cand[key], True
                    else:
                        i += size
                size //= 2
        for cand in prop.simplify(best):
            if time.monotonic() >= t_end or tries >= max_tries:
                break
            tries += 1
            if _fails(prop, cand, cls, known):
                best, changed = cand, True
                break
    return best, tries


# ---------------------------------------------------------------- commands
class Property:
    id = None
    lists = ['steps']
    runs = {'quick': 100, 'thorough': 2000}
    cap = {'quick': 240.0, 'thorough': 3600.0}
    rule = ''
    real = []
    stub = []
    assumptions = []
    measure = ''

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def run(self, plan, res):
        raise NotImplementedError

    def simplify(self, plan):
        return ()

    def extra(self, agg):
        return {}


def save_replay(prop, plan, viol, note):
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    path = os.path.join(OUT, 'replays', '%s-%s.json' % (prop.id, digest(plan)))
    with open(path, 'w') as f:
        json.dump({'property': prop.id, 'violation': viol, 'note': note, 'plan': plan}, f, indent=1,
                  sort_keys=True)
    return path


def check(prop, seed, tier, workers=None, runs=None, cap=None, progress=False):
    t0 = time.monotonic()
    workers = workers or min(8, os.cpu_count() or 8)
    gc.collect()
    gc.freeze()
    nruns = runs or prop.runs[tier]
    print('%s: tier=%s seed=%d runs=%d workers=%d repo=%s' %
          (prop.id, tier, seed, nruns, workers, REPO), flush=True)
    agg = sweep(prop, seed, tier, nruns, workers, cap or prop.cap[tier], progress)
    known = load_known(prop.id)
    rc = 0
    nviol = 0
    for kid in sorted(agg['known']):
        print('KNOWN-FINDING: property=%s %s' % (prop.id, agg['known'][kid]), flush=True)
    if agg['violations']:
        i = min(agg['violations'])
        plan, viols = agg['violations'][i]
        v = viols[0]
        print('run %d: %s: %s' % (i, v['cls'], v['msg'][:1500]), flush=True)
        # must reproduce from the plan alone, in a fresh fork
        again = None
        hang = v['cls'] in ('hang', 'no progress')
        for _ in range(1 if hang else 3):
            again = _fails(prop, plan, v['cls'], known)
            if again:
                break
        note = {'seed': seed, 'run': i, 'tier': tier}
        if again and hang:
            path = save_replay(prop, plan, again, note)
        elif again:
            global RUN_TIMEOUT
            full, RUN_TIMEOUT = RUN_TIMEOUT, 30.0
            mplan, tries = minimise(prop, plan, v['cls'], known)
            RUN_TIMEOUT = full
            mv = _fails(prop, mplan, v['cls'], known)
            if mv is None:
                mplan, mv = plan, again
            note['minimise_tries'] = tries
            note['sizes'] = {k: [len(plan.get(k) or ()), len(mplan.get(k) or ())]
                             for k in prop.lists}
            path = save_replay(prop, mplan, mv, note)
            print('minimised %s in %d tries: %s' % (note['sizes'], tries, mv['msg'][:2000]))
        elif hang:
            path = None             # finished the second time: a slow machine, not a hang
            print('not a hang: the run finished when repeated')
        else:
            note['unstable'] = 'did not reproduce in 3 further executions of the plan'
            path = save_replay(prop, plan, v, note)
        if path is not None:
            print('VIOLATION property=%s replay=%s' % (prop.id, path), flush=True)
            nviol = len(agg['violations'])
            rc = 1
    elif agg['errors']:
        for e in agg['errors'][:3]:
            print('HARNESS-ERROR run=%s %s\n%s' % (e[0], e[1], e[2]), flush=True)
            if e[3] is not None:
                os.makedirs(OUT, exist_ok=True)
                with open(os.path.join(OUT, 'error-%s.json' % prop.id), 'w') as f:
                    json.dump({'property': prop.id, 'plan': e[3]}, f, indent=1)
        rc = 2
    wall = time.monotonic() - t0
    write_evidence(prop, seed, tier, agg, wall, nviol, workers)
    print('%s: %d runs, %d distinct non-trivial, %.1f s, slowest run %.1f s (%s), rc=%d' %
          (prop.id, agg['runs'], len(agg['nontrivial']), wall, agg['slowest'], agg.get('slowest_run'), rc), flush=True)
    if progress:
        for k, v in sorted(agg['count'].items()):
            print('   ', k, v)
        for k, v in sorted(agg['sets'].items()):
            print('    |%s| = %d' % (k, len(v)))
    return rc


def write_evidence(prop, seed, tier, agg, wall, nviol, workers):
    samples = [agg['samples'][i] for i in sorted(agg['samples'])[:3]]
    faults = {k[6:]: v for k, v in sorted(agg['count'].items()) if k.startswith('fault:')}
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': prop.rule,
        'samples': samples or ['(no run completed)'],
        'simulated_runs_per_hour': int(agg['runs'] * 3600 / max(wall, 1e-6)),
        'seeds_per_hour': int(agg['runs'] * 3600 / max(wall, 1e-6)),
        'simulated_time': '%d simulated library operations (the library reads no clock: simulated '
                          'time is the operation / scheduler-event sequence number)'
                          % agg['count'].get('ops', 0),
        'faults_injected': faults,
        'counters': {k: v for k, v in sorted(agg['count'].items()) if not k.startswith('fault:')},
        'distinct': {k: len(v) for k, v in sorted(agg['sets'].items())},
        'distinct_measure': prop.measure,
        'components_real': prop.real,
        'components_stubbed': prop.stub,
        'workers': workers,
        'abandoned_runs': len(agg['abandoned']),
        'slowest_run_s': round(agg['slowest'], 2),
    }
    cov.update(prop.extra(agg))
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': prop.assumptions, 'wall_s': round(wall, 2), 'violations': nviol}
    path = os.path.join(ROOT, 'evidence', prop.id + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    gc.collect()
    gc.freeze()
    try:
        res = run_plan(prop, data['plan'])
    except Timeout as e:
        res = Result()
        res.violate('hang' if e.stuck else 'no progress', e)
    new, old = split_known(res, load_known(prop.id))
    for kid in sorted(old):
        print('KNOWN-FINDING: property=%s %s' % (prop.id, old[kid]))
    for v in new:
        print('%s: %s' % (v['cls'], v['msg']))
    want = data.get('violation')
    if new:
        same = any(v['cls'] == want['cls'] and v['msg'] == want['msg'] for v in new) if want else None
        print('replay: violation reproduced%s' % (
            '' if same is None else ' exactly' if same else ', but with a different message'))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    print('replay: no violation')
    return 0
