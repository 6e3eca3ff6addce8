"""C04: threads sharing algebras get the values each would get alone."""
import os

from . import genlt, gensession
from .c01 import ref_session
from .engine import Property, digest, fork_call
from .world import OPS, Lib, same_any, same_ref, show


def split(plan):
    steps = plan['steps']
    prefix = [s for s in steps if s['c'] < 0]
    n = 1 + max([s['c'] for s in steps] or [0])
    progs = [[s for s in steps if s['c'] == t] for t in range(max(n, 1))]
    return prefix, progs


def exec_threads(plan, preempts):
    from .sched import Scheduler
    prefix, progs = split(plan)
    lib = Lib()
    by = {s['id']: s for s in plan['steps']}
    lib.run(prefix)

    def body(prog):
        def f():
            lib.run(prog)
        return f
    sch = Scheduler([body(p) for p in progs], preempts)
    sch.run()
    out = {i: lib.canon(i, by) for i in by if i in lib.val}
    algs = [(s['id'], lib.val[s['id']]) for s in plan['steps'] if s['op'] in ('alg', 'man') and hasattr(lib.val.get(s['id']), 'basis')]
    same = [(i, j) for n, (i, a) in enumerate(algs) for j, b in algs[:n] if a is not b and a == b]
    out['confused'] = same
    return out, sch.counts, sch.switches, sch.events, sch.stop, sch.errors


HOT = None


def hot_lines():
    global HOT
    if HOT is None:
        from .sched import writer_lines
        HOT = writer_lines()
    return HOT


def locate(counts, pre):
    """plan fractions -> (thread, line, hit, next thread), using the line counts of a run without preemptions"""
    out = []
    for p in pre:
        t = p['t'] % max(1, len(counts))
        c = counts[t] if counts else {}
        locs = sorted(c)
        if p.get('hot'):
            locs = [x for x in locs if x in hot_lines()] or locs
            if p.get('rare'):       # done once or twice only: tables that are filled on first use
                locs = [x for x in locs if c[x] <= 3] or locs
        if not locs:
            continue
        loc = locs[min(len(locs) - 1, int(p['loc'] * len(locs)))]
        # half of the time the very first visit: that is where tables are filled
        hit = 0 if p['hit'] < 0.5 else min(c[loc] - 1, int((p['hit'] - 0.5) * 2 * c[loc]))
        out.append((t, loc, hit, p['to']))
    return out


POOLS = ('mans', 'flds', 'doprs', 'sops', 'lts', 'mlts')
PATCHES = ['cart2', 'cart3', 'skewc2', 'scaled2', 'polar', 'skew', 'skewg', 'rindler', 'sphere', 'hyp', 'nc2', 'csym2']


def other_session(rng, n, length, newalg):
    """threads with calculus, linear and multilinear maps on shared manifolds; no thread uses what another one made"""
    g = genlt.LtGen(rng, {'noise': 0, 'threads': True})
    g.client = -1
    flavour = rng.choice(['calc', 'lt', 'mlt', 'mlt'])
    pats = PATCHES if flavour != 'calc' else PATCHES[:-2]
    m = g.new_man(rng.choice(pats))
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 3])):
            rng.choice([g.field, g.new_lt, g.new_mlt] if flavour != 'calc' else [g.field, g.dop])(m)

    def copy():
        return {k: {a: list(b) for a, b in getattr(g, k).items()} if k != 'mans' else list(g.mans) for k in POOLS}
    pools = [copy() for _ in range(n)]
    for _ in range(length):
        c = g.client = rng.randrange(n)
        for k in POOLS:
            setattr(g, k, pools[c][k])
        x = rng.random()
        m = rng.choice(g.mans)
        co = not g.info(m).spec.get('nocoords')
        if x < newalg:
            g.new_man(rng.choice(pats))
        elif flavour == 'calc' or co and x < 0.15:
            (g.dop_op if rng.random() < 0.5 else g.fld_op)(m)
        elif flavour == 'lt' and x < 0.9:
            g.lt_op(m)
        else:
            g.mlt_op(m)
    return g


def race_session(rng, n):
    """every thread asks the same few things of an algebra nobody has used yet"""
    g = genlt.LtGen(rng, {'noise': 0, 'threads': True})
    g.client = -1
    m = g.new_man(rng.choice(PATCHES[4:-2] * 2 + PATCHES))
    co = not g.info(m).spec.get('nocoords')
    g.cost = {}
    for _ in range(rng.choice([1, 1, 2])):
        g.field(m) if co else g.new_lt(m)
    k0 = len(g.steps)
    g.client = 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if co and x < 0.6:
            g.fld_op(m)
        elif co and x < 0.8:
            g.dop_op(m)
        elif x < 0.9:
            g.lt_op(m)
        else:
            g.mlt_op(m)
    mine = g.steps[k0:]
    nid = 1 + max(s['id'] for s in g.steps)
    for c in range(1, n):
        new = {}
        for s in mine:
            new[s['id']] = nid
            g.steps.append(dict(s, id=nid, c=c, a=[new.get(a, a) for a in s['a']]))
            nid += 1
    return g


class C04(Property):
    id = 'C04'
    lists = ['pre', 'steps']
    runs = {'quick': 800, 'thorough': 25000}
    rule = ('one run = one seeded program of 2-4 threads over shared algebras and shared operands, executed under a '
            'seeded schedule (the plan names the library lines at which a thread is preempted) and once without '
            'preemption; every value is compared with the reference and with the unpreempted execution. Non-trivial: at '
            'least two switches happened inside operations.')
    measure = 'distinct (library line, thread switch) preemption points taken; distinct schedules'
    real = ['galgebra', 'sympy', 'real Python threads (one runs at a time)']
    stub = ['thread scheduler (baton passed at library lines)', 'threading.Lock/RLock created by the library (cooperative)']
    assumptions = ['switches inside sympy or between the bytecodes of one line are not explored']

    def gen(self, rng, tier, i):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        cfg = {'algs': rng.choice([1, 1, 1, 2]), 'clients': n, 'length': n * rng.choice([2, 3, 4, 6]),
               'symbolic': rng.choice([0.0, 0.2]), 'modes': 0, 'noise': rng.choice([0, 0.15]), 'dup': rng.random() < 0.2,
               'share': False, 'newalg': rng.choice([0.03, 0.03, 0.3]), 'threads': True, 'debug': False}
        if rng.random() < 0.6:
            n = rng.choice([2, 2, 3])
            pre = [{'t': 0, 'loc': round(rng.random(), 6), 'hit': round(rng.random() * 0.7, 6), 'to': 1, 'hot': rng.random() < 0.8,
                    'rare': rng.random() < 0.8} for _ in range(rng.choice([1, 1, 2]))]
            for _ in range(rng.choice([0, 0, 1, 2])):
                pre.append({'t': rng.randrange(n), 'loc': round(rng.random(), 6), 'hit': round(rng.random(), 6),
                            'to': rng.randrange(n), 'hot': rng.random() < 0.8, 'rare': rng.random() < 0.5})
            return {'steps': race_session(rng, n).steps, 'pre': pre}
        if rng.random() < 0.35:
            g = other_session(rng, n, n * rng.choice([2, 3, 4]), cfg['newalg'])
        else:
            g = gensession.session(rng, cfg)
        pre = []
        for _ in range(rng.choice([1, 2, 3, 4, 6, 10])):
            pre.append({'t': rng.choice([0, rng.randrange(n)]), 'loc': round(rng.random(), 6), 'hit': round(rng.random(), 6),
                        'to': rng.randrange(n), 'hot': rng.random() < 0.6, 'rare': rng.random() < 0.5})
        return {'steps': g.steps, 'pre': pre}

    def run(self, plan, res):
        base, counts, _, ev0, stop0, err0 = fork_call(exec_threads, plan, [])
        pts = locate(counts, plan['pre'])
        got, _, switches, events, stop, errs = fork_call(exec_threads, plan, pts)
        res.inc('ops', len(got) - 1)
        res.inc('sched_events', events)
        mid = [s for s in switches if s[2] not in ('end', 'block')]
        res.inc('fault:preemption', len(mid))
        res.inc('lock_waits', sum(1 for s in switches if s[2] == 'block'))
        for s in mid:
            res.add('preemption_lines', s[2])
        res.add('schedules', digest(switches))
        if stop == 'budget' or stop0 == 'budget':
            res.inc('budget_stops')
            return
        if stop:
            res.violate('deadlock', '%s; schedule %s' % (stop, switches), 'deadlock')
            return
        if errs:
            res.violate('thread-died', '%s; schedule %s' % (errs, switches), 'died')
        if got.pop('confused'):
            res.violate('confused-algebras', 'different algebras created by different threads compare equal, so mixing '
                        'them is not refused; schedule %s' % switches, 'confused')
        base.pop('confused')
        ref = ref_session(plan['steps'])
        for s in plan['steps']:
            i = s['id']
            c = got.get(i)
            o = OPS[s['op']]
            if not same_any(c, base.get(i)):
                res.violate('interleaving', 'step %d (thread %d) %s%s: one thread after the other %s, preempted %s; '
                            'schedule %s' % (i, s['c'], s['op'], s['p'], show(base.get(i)), show(c), switches), s['op'])
            elif ref.val.get(i) is not None and c is not None and c[0] not in ('raised', 'bad', 'nonum') and \
                    same_ref(c, (o.rett, ref.val[i])) is False:
                res.violate('wrong-value', 'step %d (thread %d) %s%s: %s, reference %s; schedule %s' %
                            (i, s['c'], s['op'], s['p'], show(c), show((o.rett, ref.val[i])), switches), s['op'])
        res.nontrivial = len(mid) >= 1
        res.key = digest([plan['steps'], switches])
        res.log = [switches, [(i, show(got[i])) for i in sorted(got)]]
        if plan.get('run', 9) < 3:
            res.sample = {'threads': [['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in p]
                                      for p in [split(plan)[0]] + split(plan)[1]],
                          'schedule': ['%d->%d at %s' % s for s in switches]}
