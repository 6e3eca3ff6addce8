"""Sessions over all operation families."""
from . import genalg, gencalc, genlt
from .refmodel import Clifford


def generator(rng, cfg):
    return genalg.Gen(rng, cfg)


def text_op(g, rng, alg):
    from .ops_alg import FRAGMENTS, TEXTS
    x = rng.random()
    if x < 0.12:
        names = []
        for _ in range(rng.choice([1, 2])):
            nm = ''.join(rng.choice(FRAGMENTS) for _ in range(rng.choice([1, 2, 3])))
            nm += rng.choice(['', '_' + rng.choice(FRAGMENTS), '__' + rng.choice(FRAGMENTS), '1', '_{1}', '__2_' + rng.choice(FRAGMENTS)])
            names.append(nm)
        return g.emit('symtext', [], {'names': names})
    if x < 0.2:
        return g.emit('gatext', [alg])
    p = {'k': rng.choice(TEXTS), 'f': rng.choice([1, 2, 3])}
    if rng.random() < 0.3:
        p['t'] = rng.choice(['A', 'B', 'v'])
    return g.emit('text', [g.pick(alg, 3)], p)


def one_op(g, rng, cfg, alg):
    """one random operation on an algebra"""
    if cfg.get('text') and rng.random() < cfg['text']:
        return text_op(g, rng, alg)
    return g.alg_op(alg)


def other(g, rng, cfg, alg):
    """a session-wide mode switch or noise"""
    if cfg.get('modes') and rng.random() < cfg['modes'] / (cfg['modes'] + cfg.get('noise', 0.0)):
        if rng.random() < 0.8:
            return g.emit('dual_mode', [], {'m': rng.choice(Clifford.DUAL_MODES)})
        return g.emit('simp_profile', [], {'m': rng.choice([['expand'], ['simplify'], ['factor'], ['expand', 'factor']])})
    return g.noise(alg)


def session(rng, cfg):
    """interleave cfg['clients'] clients over shared algebras; returns the Gen"""
    g = generator(rng, cfg)
    g.client = -1
    for _ in range(cfg['algs']):
        g.new_alg()
    if cfg.get('dup') and g.algs:
        # a second algebra over the same basis names but another metric: same blade symbols
        s = dict(g.steps[0]['p'])
        s.pop('debug', None)
        if s['kind'] == 'diag':
            s['g'] = [-x if rng.random() < 0.5 else x * 2 for x in s['g']]
            g.new_alg(s)
        elif s['kind'] == 'mat':
            s = {'kind': 'diag', 'n': s['n'], 'g': [rng.choice([1, -1, 2]) for _ in range(s['n'])],
                 'root': s['root'], 'form': 'list'}
            g.new_alg(s)
    turns = cfg['length']
    home = {c: rng.choice(g.algs) for c in range(cfg['clients'])}
    while turns > 0:
        turns -= 1
        g.client = rng.randrange(cfg['clients'])
        alg = home[g.client] if rng.random() < 0.8 else rng.choice([a for a in g.algs if g.mine(a)])
        x = rng.random()
        special = cfg.get('modes', 0.05) + cfg.get('noise', 0.1)
        if x < special:
            other(g, rng, cfg, alg)
        elif x < special + cfg.get('newalg', 0.03) and len(g.algs) < 4:
            g.new_alg()
            if rng.random() < 0.5:
                home[g.client] = g.algs[-1]
        else:
            one_op(g, rng, cfg, alg)
    return g


# refusals, failing callbacks and other steps that are there to disturb the rest
NOISE = ('fail', 'c_fail', 'l_fail', 'l_foreign')


def other_kind(rng, cfg, kind):
    """a session of calculus ('calc') or of linear and multilinear maps ('lt')"""
    c = {'mans': cfg.get('mans', 1), 'clients': cfg.get('clients', 1), 'length': cfg['length'], 'noise': cfg.get('noise', 0.1),
         'subs': cfg.get('subs', 0.1), 'newman': cfg.get('newman', 0)}
    if kind == 'calc':
        return gencalc.session(rng, dict(c, dops=cfg.get('dops', 0.5)))
    return genlt.session(rng, dict(c, mlt=cfg.get('mlt', 0.4), subs=0))


def any_session(rng, cfg, share=0.35):
    """mostly algebra sessions, the rest calculus and linear maps"""
    if rng.random() >= share:
        return session(rng, cfg), 'alg'
    kind = rng.choice(['calc', 'lt'])
    n = cfg['length']
    return other_kind(rng, dict(cfg, length=rng.choice([5, 7, 9]) if n <= 12 else rng.choice([7, 10, 13])), kind), kind
