"""C02: derivatives are exact on every manifold and in every session."""
from . import gencalc
from .c01 import check_against_ref, exec_session, ref_session
from .engine import Property, digest, fork_call
from .world import OPS, same_any, show, slice_of


class C02(Property):
    id = 'C02'
    runs = {'quick': 450, 'thorough': 15000}
    rule = ('one run = one seeded session over 1-4 coordinate systems and submanifolds (Cartesian, Lorentzian, skew, '
            'curvilinear, curved, normalised or not, from a metric or from an embedding), 1-3 interleaved clients, 10-24 '
            'field operations and derivatives, printing and refused calls in between; every value compared with a '
            'Taylor-jet model of the Levi-Civita derivative at a fixed point, and sampled values with a fresh session '
            'that runs only their backward slice. Non-trivial: at least 4 derivatives compared with the reference.')
    measure = 'derivative operation x kind of coordinate system x what was asked before'
    real = ['galgebra.ga', 'galgebra.mv', 'galgebra.metric', 'galgebra.dop', 'galgebra.printer', 'sympy']
    stub = ['stdout (discarded)']
    assumptions = ['sympy differentiation and arithmetic are correct', 'agreement at one fixed rational point to 18 digits is equality',
                   'derivatives up to total order 3', 'mixed repeated derivatives only on flat coordinate systems']
    dops = 0.06

    def cfg(self, rng):
        return {'mans': rng.choice([1, 1, 2, 2, 3]), 'clients': rng.choice([1, 2, 3]), 'length': rng.choice([8, 12, 18]),
                'noise': rng.choice([0, 0.1, 0.25]), 'subs': 0.5, 'dops': self.dops}

    def gensession(self, rng):
        return gencalc.session(rng, self.cfg(rng))

    def gen(self, rng, tier, i):
        g = self.gensession(rng)
        ids = [s['id'] for s in g.steps if OPS[s['op']].rett not in ('none', 'man', 'str')]
        rng.shuffle(ids)
        return {'steps': g.steps, 'slices': ids[:2]}

    def interesting(self, s):
        return OPS[s['op']].tags & {'deriv'}

    def run(self, plan, res):
        steps = plan['steps']
        got = fork_call(exec_session, steps)
        res.inc('ops', len(got))
        ref = ref_session(steps)
        check_against_ref(self, steps, got, res, ref)
        prev = {}
        n = 0
        for s in steps:
            m = ref.alg_of.get(s['id'])
            if m in ref.info:
                I = ref.info[m]
                if self.interesting(s) and ref.val.get(s['id']) is not None:
                    n += 1
                res.add('op_pairs', (prev.get(m), s['op'], tuple(I.coords), I.norm, str(s['p'].get('m'))[:1], s['p'].get('how')))
                prev[m] = s['op']
            res.inc('op:' + s['op'])
            if s['op'] in ('c_fail', 'l_fail', 'l_foreign'):
                res.inc('fault:refused:' + s['p']['k'])
        ids = {s['id'] for s in steps}
        by = {s['id']: s for s in steps}
        for t in plan['slices']:
            if t not in ids or t not in got:
                continue
            sl = slice_of(steps, t)
            if len(sl) == len(steps):
                continue
            alone = fork_call(exec_session, sl)
            res.inc('slices')
            if not same_any(got[t], alone.get(t)):
                res.violate('history-dependent', 'step %d %s%s: in the session %s, alone %s' %
                            (t, by[t]['op'], by[t]['p'], show(got[t]), show(alone.get(t))), by[t]['op'])
        res.nontrivial = n >= 4
        res.key = digest(steps)
        res.log = [(i, show(got[i])) for i in sorted(got)]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps]}
