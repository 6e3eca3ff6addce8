"""C07: session-wide modes act exactly as declared, and only as declared."""
from . import gensession
from .c01 import check_against_ref, ref_session
from .c03 import exec_faulted
from .engine import Property, digest, fork_call
from .ops_alg import BAD_MODES, PROFILES
from .refmodel import Clifford
from .world import OPS, Lib, show

BADK = ['mode', 'mode', 'mode', 'modetype', 'core0', 'king0', 'corekw', 'kingkw', 'coreneg', 'kingneg']


class C07(Property):
    id = 'C07'
    lists = ['faults', 'steps']
    runs = {'quick': 500, 'thorough': 15000}
    rule = ('one run = one seeded session over 2-4 algebras (plain, Cl of both flavours, created at any time) with dual '
            'mode switches (all eight, default, refused ones), refused and interrupted algebra constructions, '
            'simplification profiles (lists, single functions, failing functions) and duals, unduals and products in '
            'between; every dual and the current mode are compared with the reference. Non-trivial: at least 4 duals '
            'under at least 2 modes.')
    measure = 'pairs (dual mode in force, operation); mode transitions'
    real = ['galgebra', 'sympy']
    stub = ['stdout (discarded)']
    assumptions = []

    def gen(self, rng, tier, i):
        cfg = {'algs': 0, 'clients': 1, 'length': rng.choice([14, 20, 28]), 'symbolic': rng.choice([0.0, 0.2]),
               'modes': 0, 'noise': 0, 'small': True, 'kinds': ['diag', 'diag', 'cl', 'cl', 'mat', 'sym', 'null']}
        g = gensession.generator(rng, cfg)
        g.new_alg()
        faults = []
        for _ in range(cfg['length']):
            x = rng.random()
            ok = [a for a in g.algs if not g.ref.info[a].degenerate]
            if x < 0.08 and len(g.algs) < 5:
                a = g.new_alg()
                if rng.random() < 0.4:
                    faults.append({'step': a, 'exc': rng.choice(['KI', 'ME', 'RE']), 'loc': round(rng.random(), 6),
                                   'hit': round(rng.random(), 6)})
            elif x < 0.26:
                g.emit('dual_mode', [], {'m': rng.choice(Clifford.DUAL_MODES)})
            elif x < 0.28:
                g.emit('dual_mode_default', [])
            elif x < 0.34:
                g.emit('badmode', [], {'k': rng.choice(BADK), 'm': rng.choice(BAD_MODES)})
            elif x < 0.39:
                g.emit('simp_set', [], {'m': rng.choice(sorted(PROFILES))})
            elif x < 0.44:
                g.emit('simp_bad', [g.pick(rng.choice(g.algs), 2)], {
                    'n': rng.randrange(3), 'k': rng.choice(['str', 'latex', 'apply', 'applymv', 'fmt', 'func', 'simplify',
                                                            'repr'])})
            elif x < 0.48:
                g.emit('simp_apply', [g.pick(rng.choice(g.algs), 2)], {'k': rng.choice(['mv', 'obj'])})
            elif x < 0.52:
                g.emit('get_mode', [rng.choice(g.algs)])
            elif x < 0.80 and ok:
                a = rng.choice(ok)
                s = g.g_dual(a, g.ref.info[a], g.ref.info[a].n, rng)
                if s is not None and rng.random() < 0.2:
                    faults.append({'step': s, 'exc': rng.choice(['KI', 'ME', 'RE']), 'loc': round(rng.random(), 6),
                                   'hit': round(rng.random(), 6)})
            else:
                gensession.one_op(g, rng, cfg, rng.choice(g.algs))
        return {'steps': g.steps, 'faults': faults}

    def run(self, plan, res):
        steps = plan['steps']
        got, trace, leaks, _ = fork_call(exec_faulted, steps, plan['faults'])
        res.inc('ops', len(got))
        for (i, exc, pt, out) in trace:
            if pt and out != 'not reached':
                res.inc('fault:' + exc)
        by = {s['id']: s for s in steps}
        for i, d in leaks:
            res.violate('mode-leak', 'failing step %d %s%s changed %s; injected: %s' % (
                i, by[i]['op'], by[i]['p'], d, trace), by[i]['op'])
        check_against_ref(self, steps, got, res)
        ref = ref_session([])
        mode, duals, modes = 'I+', 0, set()
        for s in steps:
            old = ref.mode
            ref.step(s)
            if ref.mode != old:
                res.add('transitions', (old, ref.mode, s['op']))
            res.add('mode_ops', (ref.mode, s['op']))
            if s['op'] in ('dual', 'undual', 'dual_undual'):
                duals += 1
                modes.add(ref.mode)
            if s['op'] == 'badmode':
                res.inc('fault:refused_mode_or_algebra')
            if s['op'] == 'simp_bad':
                res.inc('fault:failing_profile')
        res.nontrivial = duals >= 4 and len(modes) >= 2
        res.key = digest(plan)
        res.log = [trace, [(i, show(got[i])) for i in sorted(got)]]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps]}
