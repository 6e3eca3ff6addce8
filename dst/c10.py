"""C10: results and printed output are the same in every run of a program."""
from . import gensession, server
from .c06 import exec_texts
from .engine import Property, digest, fork_call
from .world import OPS, same_any, show

SEEDS = [0, 1, 7, 42, 4242, 999983]


def exec_batch(sessions):
    """each session in its own fork of this interpreter"""
    return [fork_call(exec_texts, s) for s in sessions]


class C10(Property):
    id = 'C10'
    lists = ['steps']
    runs = {'quick': 450, 'thorough': 12000}
    rule = ('one run = one seeded program (algebra, calculus and linear-map operations, every kind of text) executed in '
            'three interpreters with different PYTHONHASHSEED; every value, text, coefficient order and table order is '
            'compared literally. Non-trivial: at least 6 texts compared.')
    measure = 'text-producing operations compared; (hash seed, hash seed) pairs'
    real = ['galgebra', 'sympy', 'CPython with the given PYTHONHASHSEED']
    stub = ['stdout (discarded)']
    assumptions = ['memory addresses also differ between the interpreters']

    def gen(self, rng, tier, i):
        cfg = {'algs': rng.choice([1, 1, 2]), 'clients': 1, 'length': rng.choice([10, 16, 24]),
               'symbolic': rng.choice([0.2, 0.5, 0.8]), 'modes': rng.choice([0, 0.05]), 'noise': rng.choice([0, 0.1]),
               'dup': rng.random() < 0.2, 'text': rng.choice([0.3, 0.5])}
        g, kind = gensession.any_session(rng, dict(cfg, mlt=0.5), 0.4)
        return {'steps': g.steps, 'hashseeds': rng.sample(SEEDS, 3 if tier == 'thorough' else 2)}

    def run(self, plan, res):
        steps = plan['steps']
        runs = [(h, server.call(h, exec_texts, steps)) for h in plan['hashseeds']]
        h0, (v0, t0) = runs[0]
        res.inc('ops', len(v0))
        n = 0
        for h, (v, t) in runs[1:]:
            res.inc('fault:other_hash_seed')
            res.add('seed_pairs', (h0, h))
            for s in steps:
                i = s['id']
                if not same_any(v0.get(i), v.get(i)):
                    res.violate('value', 'step %d %s%s: hash seed %s: %s; hash seed %s: %s' % (
                        i, s['op'], s['p'], h0, show(v0.get(i)), h, show(v.get(i))), s['op'])
                elif t0.get(i) != t.get(i):
                    res.violate('text', 'text of step %d %s%s: hash seed %s: %s; hash seed %s: %s' % (
                        i, s['op'], s['p'], h0, t0.get(i), h, t.get(i)), s['op'])
                elif v0.get(i) is not None and v0[i][0] == 'grdict' and list(v0[i][1]) != list(v[i][1]):
                    res.violate('order', 'order of step %d %s: %s / %s' % (i, s['op'], list(v0[i][1]), list(v[i][1])), s['op'])
                else:
                    n += (i in t0) + (OPS[s['op']].rett == 'str')
        for s in steps:
            if OPS[s['op']].rett == 'str':
                res.inc('texts')
                res.add('texts', s['op'] + str(s['p'].get('k', '')))
        res.nontrivial = n >= 6
        res.key = digest(plan)
        res.log = [(i, show(v0[i]), t0.get(i)) for i in sorted(v0)]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps],
                          'hashseeds': plan['hashseeds']}
