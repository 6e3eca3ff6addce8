"""C01: every algebra result in any session is the exact Clifford-algebra value."""
from . import genalg, world
from .engine import Property, fork_call, digest
from .world import OPS, Lib, Ref, same_ref, same_any, show, slice_of


def exec_session(steps):
    """in a forked child: run all steps, return {id: canonical value}"""
    lib = Lib()
    by = {s['id']: s for s in steps}
    lib.run(steps)
    return {i: lib.canon(i, by) for i in by if i in lib.val}


def ref_session(steps):
    ref = Ref()
    for s in steps:
        ref.step(s)
    return ref


def check_against_ref(prop, steps, got, res, ref=None, where=''):
    ref = ref or ref_session(steps)
    for s in steps:
        i = s['id']
        if i not in got:
            continue
        o = OPS[s['op']]
        c = got[i]
        want = ref.val.get(i)
        if c is None:
            continue
        if c[0] == 'raised':
            if want is not None:
                res.violate('raised', '%sstep %d %s%s raised %s: %s although its value is defined: %s' %
                            (where, i, s['op'], s['p'], c[1], c[2], show((o.rett, want))), s['op'] + ':' + c[1])
            continue
        if c[0] in ('bad', 'nonum'):
            res.violate('malformed', '%sstep %d %s%s: %s' % (where, i, s['op'], s['p'], c[1]), s['op'])
            continue
        if want is not None:
            ok = same_ref(c, (o.rett, want))
            if ok is None:
                continue
            res.inc('checked_vs_reference')
            if not ok:
                res.violate('wrong-value', '%sstep %d %s%s: library %s, reference %s' %
                            (where, i, s['op'], s['p'], show(c), show((o.rett, want))), s['op'])
    return ref


class C01(Property):
    id = 'C01'
    runs = {'quick': 1800, 'thorough': 20000}
    rule = ('one run = one seeded session: 1-4 algebras (diagonal, general, symbolic, degenerate, null metrics; list, '
            'string, matrix, build and Cl constructors), 1-3 interleaved clients, 15-40 operations, dual-mode switches, '
            'printing, refused calls, debug algebras; every value compared with the reference Clifford algebra at a '
            'fixed rational point, and sampled values with a fresh session that runs only their backward slice. '
            'Non-trivial: at least 8 values compared with the reference.')
    measure = 'pairs of consecutive operations on one algebra; basis-blade table states reached (op x metric kind)'
    real = ['galgebra.ga', 'galgebra.mv', 'galgebra.metric', 'galgebra.printer', 'galgebra.interop', 'sympy']
    stub = ['stdout (discarded)']
    assumptions = ['sympy arithmetic is correct', 'agreement at one fixed rational point to 18 digits is equality']

    def gen(self, rng, tier, i):
        cfg = {'algs': rng.choice([1, 1, 2, 3]), 'clients': rng.choice([1, 2, 3]),
               'length': rng.choice([12, 18, 25, 35]), 'symbolic': rng.choice([0.0, 0.2, 0.5]),
               'modes': rng.choice([0, 0.05, 0.12]), 'noise': rng.choice([0, 0.1, 0.25]),
               'dup': rng.random() < 0.3}
        g = genalg.session(rng, cfg)
        ids = [s['id'] for s in g.steps if OPS[s['op']].rett not in ('none', 'gram')]
        rng.shuffle(ids)
        return {'steps': g.steps, 'slices': ids[:2]}

    def run(self, plan, res):
        steps = plan['steps']
        got = fork_call(exec_session, steps)
        res.inc('ops', len(got))
        n0 = 0
        check_against_ref(self, steps, got, res)
        n0 = res.count['checked_vs_reference']
        prev = {}
        ref = ref_session(steps)
        for s in steps:
            alg = ref.alg_of.get(s['id'])
            if alg is not None:
                k = ref.info[alg].spec['kind'] if alg in ref.info else '?'
                res.add('op_pairs', (prev.get(alg), s['op'], k))
                prev[alg] = s['op']
            res.inc('op:' + s['op'])
            if s['op'] in ('fail', 'print'):
                res.inc('fault:' + s['op'] + ':' + s['p']['k'])
        ids = {s['id'] for s in steps}
        for t in plan['slices']:
            if t not in ids or t not in got:
                continue
            sl = slice_of(steps, t)
            if len(sl) == len(steps):
                continue
            alone = fork_call(exec_session, sl)
            res.inc('slices')
            if not same_any(got[t], alone.get(t)):
                st = [s for s in steps if s['id'] == t][0]
                res.violate('history-dependent', 'step %d %s%s: in the session %s, alone %s' %
                            (t, st['op'], st['p'], show(got[t]), show(alone.get(t))), st['op'])
        res.nontrivial = n0 >= 8
        res.key = digest(steps)
        res.log = [(i, show(got[i])) for i in sorted(got)]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps]}
