"""C03: a failed or interrupted operation leaves everything usable and unchanged."""
from . import faults, gensession
from .c01 import exec_session
from .engine import Property, digest, fork_call
from .state import global_state, state_diff
from .world import OPS, Lib, Raised, same_any, show

NOISE = gensession.NOISE


def exec_faulted(steps, plan_faults):
    """in a forked child: run the steps, injecting the planned faults; each faulted step is retried"""
    lib = Lib()
    by = {s['id']: s for s in steps}
    todo = {}
    for f in plan_faults:
        todo.setdefault(f['step'], []).append(f)
    trace, leaks = [], []
    for st in steps:
        for f in todo.get(st['id'], ()):
            counts = faults.survey(lambda: lib.one(st))
            pt = faults.choose(counts, f)
            if pt is None:
                trace.append((st['id'], f['exc'], None, 'no fault point'))
                continue
            before = global_state()
            keep = dict(lib.val), dict(lib.spec), dict(lib.alg_of)
            out = 'completed'
            try:
                with faults.Injector(pt[0], pt[1], f['exc']) as inj:
                    lib.step(st)
            except KeyboardInterrupt:
                out = 'KeyboardInterrupt'
            except BaseException as e:
                out = type(e).__name__
            done = out == 'completed'
            trace.append((st['id'], f['exc'], '%s#%d' % pt, out if inj.fired else 'not reached'))
            if not done:
                lib.val, lib.spec, lib.alg_of = dict(keep[0]), dict(keep[1]), dict(keep[2])
                d = state_diff(before, global_state())
                if d:
                    leaks.append((st['id'], d))
        lib.one(st)
    return {i: lib.canon(i, by) for i in by if i in lib.val}, trace, leaks, global_state()


def exec_plain(steps):
    got = exec_session(steps)
    return got, global_state()


class C03(Property):
    id = 'C03'
    lists = ['faults', 'steps']
    runs = {'quick': 600, 'thorough': 15000}
    rule = ('one run = one seeded session (algebra, calculus and linear-map operations over 1-3 algebras) executed '
            'twice: without failures, and with 1-6 injected failures (interrupt, memory, recursion depth at a seeded '
            'call out of the library, the step then retried) plus refused calls and failing caller functions; every '
            'value, the dual mode, the simplification profile, printer settings and stdout are compared. '
            'Non-trivial: at least one injected failure cut an operation short.')
    measure = 'distinct fault points (library line > callee) at which a failure was injected'
    real = ['galgebra (all session modules)', 'sympy']
    stub = ['stdout (discarded)', 'the source of the failure: raised by the simulator at the entry of the called function']
    assumptions = ['sympy keeps its own state consistent when the function it was asked to start never starts']

    def gen(self, rng, tier, i):
        cfg = {'algs': rng.choice([1, 1, 2]), 'clients': 1, 'length': rng.choice([8, 12, 18]),
               'symbolic': rng.choice([0.0, 0.2]), 'modes': rng.choice([0, 0.08]),
               'noise': rng.choice([0, 0.2]), 'dup': False, 'fails': True}
        g, kind = gensession.any_session(rng, cfg)
        cand = [s['id'] for s in g.steps if s['op'] not in NOISE]
        fs = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            t = rng.choice(cand)
            for _ in range(rng.choice([1, 1, 1, 2])):
                fs.append({'step': t, 'exc': rng.choice(['KI', 'KI', 'ME', 'RE']), 'loc': round(rng.random(), 6),
                           'hit': round(rng.random(), 6)})
        return {'steps': g.steps, 'faults': fs}

    def run(self, plan, res):
        steps = plan['steps']
        plain = [s for s in steps if s['op'] not in NOISE]
        want, st0 = fork_call(exec_plain, plain)
        got, trace, leaks, st1 = fork_call(exec_faulted, steps, plan['faults'])
        res.inc('ops', len(got))
        for (i, exc, pt, out) in trace:
            if pt and out != 'not reached':
                res.inc('fault:' + exc)
                res.add('fault_points', pt.split('#')[0])
                if out == 'completed':
                    res.inc('fault_absorbed')
                else:
                    res.nontrivial = True
        for s in steps:
            if s['op'] in NOISE:
                res.inc('fault:refused:' + s['p']['k'])
        for i, d in leaks:
            st = [s for s in steps if s['id'] == i][0]
            res.violate('state-leak', 'failure in step %d %s%s changed %s; injected: %s' % (i, st['op'], st['p'], d, trace),
                        st['op'])
        for s in plain:
            i = s['id']
            if not same_any(got.get(i), want.get(i)):
                res.violate('after-failure', 'step %d %s%s: without failures %s, after failures %s; injected: %s' %
                            (i, s['op'], s['p'], show(want.get(i)), show(got.get(i)), trace), s['op'])
        d = state_diff(st0, st1)
        if d:
            res.violate('state-leak', 'session-wide state differs after failures: %s; injected: %s' % (d, trace), 'final')
        res.key = digest(plan)
        res.log = [trace, [(i, show(got[i])) for i in sorted(got)]]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps], 'injected': trace}
