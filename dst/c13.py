"""C13: answers about a multivector stay correct when a coefficient is set."""
import copy

from . import gensession
from .engine import Property, digest, fork_call
from .ops_alg import masks_of_grade, sc, scn
from .refmodel import mv_close, popcount
from .state import global_state, state_diff
from .world import OPS, Lib, Raised, Ref, same, show

QUESTIONS = ['is_blade', 'is_blade', 'is_versor', 'is_scalar', 'is_vector', 'is_zero', 'is_base', 'gagrades', 'pure_grade',
             'grade', 'even', 'odd', 'rev', 'ccon', 'scalar', 'blade_coefs', 'components', 'inv', 'neg', 'g_invol']
VALUES = [0, 0, 1, 2, -1, -3, '1/2', '2/3', 5]


def base_products(cl, n, bits):
    a = cl.scalar(1)
    for i in bits:
        a = cl.gp(a, {1 << i: 1})
    return a


def base_coefs(I, a):
    """coefficients of a over the geometric products of basis vectors: {mask: coefficient}"""
    out, rest = {}, dict(a)
    for r in range(I.n, -1, -1):
        for m in masks_of_grade(I.n, r):
            c = rest.get(m)
            if c:
                out[m] = c
                rest = I.cl.sub(rest, I.cl.scale(base_products(I.cl, I.n, [i for i in range(I.n) if m >> i & 1]), c))
    return out


def ref_set(I, a, m, v, base):
    if not base:
        b = dict(a)
        b.pop(m, None)
        return I.cl.clean(I.cl.add(b, {m: v}))
    prod = base_products(I.cl, I.n, [i for i in range(I.n) if m >> i & 1])
    old = base_coefs(I, a).get(m, 0)
    return I.cl.clean(I.cl.add(a, I.cl.scale(prod, v - old)))


def exec_c13(steps):
    """library and reference side by side; returns (violations, counters, log)"""
    lib, ref = Lib(), Ref()
    by = {s['id']: s for s in steps}
    out, log = [], []
    cnt = {}

    def bump(k):
        cnt[k] = cnt.get(k, 0) + 1

    def check(i, why):
        st = by[i]
        want = ref.val.get(i)
        c = lib.canon(i, by)
        if c is None or want is None:
            return
        if c[0] == 'raised':
            out.append(('raised', 'step %d %s%s raised %s: %s although its value is defined: %s%s' % (
                i, st['op'], st['p'], c[1], c[2], show((OPS[st['op']].rett, want)), why), st['op']))
        elif c[0] in ('bad', 'nonum'):
            out.append(('malformed', 'step %d %s%s: %s%s' % (i, st['op'], st['p'], c[1], why), st['op']))
        else:
            bump('checked')
            if not same(c, (OPS[st['op']].rett, want)):
                out.append(('wrong-value', 'step %d %s%s: library %s, reference %s%s' % (
                    i, st['op'], st['p'], show(c), show((OPS[st['op']].rett, want)), why), st['op']))
        log.append((i, show(c)))

    def owned(x):
        ga = x.Ga
        mine = list(ga.mv_blades.flat) + list(ga.mv_basis) + [ga.e] + [getattr(ga, k, None) for k in ('i', 'i_inv')]
        for k in ('r_basis_mv', '_mvr', 'mv_reciprocal'):
            mine += list(getattr(ga, k, None) or [])
        return any(x is y for y in mine)

    isset = set()
    for st in steps:
        if out:
            break
        if st['op'] != 'set_coef':
            lib.one(st)
            ref.step(st)
            check(st['id'], '')
            continue
        t, p = st['a'][0], st['p']
        x = lib.val.get(t)
        if x is None or isinstance(x, Raised) or ref.val.get(t) is None or owned(x):
            continue
        I = ref.info[ref.alg_of[t]]
        n = I.n
        r = p['r'] % (n + 1)
        ms = masks_of_grade(n, r)
        m = ms[p['b'] % len(ms)]
        v = sc(p['v'])
        if p.get('expr'):
            v = v * (sc('a') + 1) - v * sc('a')
        base = not x.is_blade_rep
        before = global_state()
        bad = p.get('bad')
        try:
            if bad == 'grade':
                x.set_coef(n + 3, 0, v)
            elif bad == 'base':
                x.set_coef(r, len(ms) + 2, v)
            elif bad == 'value':
                x.set_coef(r, p['b'] % len(ms), object())
            else:
                x.set_coef(r, p['b'] % len(ms), v)
        except Exception as e:
            if not bad:
                out.append(('raised', 'set_coef(%d, %d, %s) on value %d raised %r' % (r, p['b'] % len(ms), v, t, e), 'set'))
            bump('refused')
        else:
            if bad:
                # accepted after all: nothing is promised about the value, so it is no longer looked at
                for i in list(lib.val):
                    if lib.val[i] is x:
                        lib.val.pop(i)
                        ref.val[i] = None
            else:
                new = ref_set(I, ref.val[t], m, scn(p['v']), base)
                changed = not mv_close(new, ref.val[t])
                ref.val[t] = new
                isset.add(t)
                bump('sets_changed' if changed else 'sets_same')
        d = state_diff(before, global_state())
        if d:
            out.append(('mode-leak', 'set_coef changed %s' % d, 'set'))
        # the object itself answers for its new coefficients, every other value is untouched
        why = '; after set_coef%s on value %d' % ((r, p['b'] % len(ms), p['v']), t)
        for i in sorted(lib.val):
            if OPS[by[i]['op']].rett == 'mv':
                check(i, why)
        y = lib.val.get(t)
        if y is not None and not out:
            from galgebra.mv import Mv
            z = Mv(y.obj, ga=y.Ga)
            if str(y) != str(z) or not (y == z):
                out.append(('text', 'prints %r, a fresh multivector with its expression prints %r%s' % (str(y), str(z), why),
                            'text'))
            elif hash(y) != hash(z) and y.is_blade_rep == z.is_blade_rep:
                out.append(('text', 'hash differs from that of a fresh equal multivector%s' % why, 'hash'))
    return out, cnt, log


class C13(Property):
    id = 'C13'
    runs = {'quick': 2500, 'thorough': 60000}
    rule = ('one run = one seeded history over 1-2 algebras: multivectors (blade and base representation), questions about '
            'them, copies, products, prints, and set_coef calls (also to zero, to unexpanded values, refused ones) on any of '
            'them; every answer, and after each set_coef every living multivector, is compared with a reference object that '
            'has the coefficients. Non-trivial: at least 3 assignments that change a value, each followed by a question.')
    measure = 'pairs (question asked before an assignment, question asked after it)'
    real = ['galgebra.mv', 'galgebra.ga', 'sympy']
    stub = ['stdout (discarded)']
    assumptions = ['the objects an algebra itself holds (its basis vectors, blades, pseudoscalar) are not assigned to']

    def gen(self, rng, tier, i):
        cfg = {'algs': rng.choice([1, 1, 2]), 'clients': 1, 'length': 0, 'symbolic': rng.choice([0.0, 0.0, 0.3]),
               'modes': 0, 'noise': 0.1, 'small': rng.random() < 0.6, 'kinds': ['diag', 'diag', 'mat', 'cl', 'null']}
        g = gensession.generator(rng, cfg)
        for _ in range(cfg['algs']):
            g.new_alg()
        for _ in range(rng.choice([10, 16, 24])):
            alg = rng.choice(g.algs)
            x = rng.random()
            if x < 0.3:
                pool = [k for k in g.live[alg] if g.facts[k].poly and g.facts[k].deg <= 1 and
                        g.steps[k]['op'] not in ('basis', 'blade', 'E', 'Ips', 'recip')]
                if not pool:
                    g.operand(alg)
                    continue
                k = rng.choice(pool[-4:])
                n = g.ref.info[alg].n
                v = g.v(k)
                r, b = rng.randrange(n + 1), rng.randrange(6)
                if v and rng.random() < 0.5:
                    m = rng.choice(sorted(v))
                    r = popcount(m)
                    b = masks_of_grade(n, r).index(m)
                p = {'r': r, 'b': b, 'v': rng.choice(VALUES + (['a', 'b'] if rng.random() < 0.2 else []))}
                if rng.random() < 0.2:
                    p['expr'] = True
                if rng.random() < 0.1:
                    p['bad'] = rng.choice(['grade', 'base', 'value'])
                st = {'id': g.next, 'op': 'set_coef', 'a': [k], 'p': p, 'c': 0}
                g.next += 1
                g.steps.append(st)
                if not p.get('bad') and g.ref.val.get(k) is not None:
                    g.ref.val[k] = ref_set(g.ref.info[alg], g.ref.val[k], masks_of_grade(n, r)[b % len(masks_of_grade(n, r))],
                                           scn(p['v']), g.facts[k].base)
                    if isinstance(p['v'], str) and '/' not in p['v']:
                        g.facts[k].num = False
                        g.facts[k].deg = max(1, g.facts[k].deg)
                # and right away a question or two about it
                for _ in range(rng.choice([0, 1, 2])):
                    self.question(g, rng, alg, k)
            elif x < 0.4:
                k = g.pick(alg, 1)
                g.emit('copy', [k], {'how': rng.randrange(4)})
            elif x < 0.5 and [k for k in g.live[alg] if not g.facts[k].base]:
                k = g.pick(alg, 1)
                if g.size(k) <= 4 or g.ref.info[alg].n <= 2:
                    b = g.emit('base_rep', [k], base=True)
            elif x < 0.75:
                self.question(g, rng, alg, g.pick(alg, 1))
            else:
                gensession.one_op(g, rng, cfg, alg)
        return {'steps': g.steps}

    @staticmethod
    def question(g, rng, alg, k):
        f, info = g.facts[k], g.ref.info[alg]
        if f.base:
            o = rng.choice(['blade_rep', 'scalar', 'blade_coefs', 'neg', 'is_scalar', 'is_vector', 'is_zero', 'gagrades'] + (
                ['pure_grade', 'is_blade', 'is_versor']
                if info.numeric and f.num and f.poly and g.v(k) and info.n <= 3 else []))
            return g.emit(o, [k], {'fn': False}, base=o == 'neg')
        o = rng.choice(QUESTIONS)
        v = g.v(k)
        if o in ('is_blade', 'is_versor', 'pure_grade'):
            if not info.numeric or not f.num or not f.poly or not v:
                o = 'gagrades'
            elif info.n > 3 and max(popcount(m) for m in v) > 2:
                o = 'is_scalar'
        if o == 'is_base' and not f.num:
            o = 'is_vector'
        if o == 'inv' and not (f.poly and f.num and g.has_simple_inverse(k)):
            o = 'rev'
        if o in ('is_scalar', 'is_vector', 'is_zero', 'gagrades') and not f.poly:
            o = 'neg'
        p = {}
        if o == 'grade':
            p = {'r': rng.randrange(info.n + 1), 'how': 0}
        if o in ('even', 'odd', 'rev', 'ccon', 'inv', 'g_invol', 'scalar'):
            p = {'fn': rng.random() < 0.3}
        return g.emit(o, [k], p)

    def run(self, plan, res):
        steps = plan['steps']
        viols, cnt, log = fork_call(exec_c13, steps)
        for k, v in cnt.items():
            res.inc(k, v)
        res.inc('ops', len(steps))
        res.inc('fault:refused_assignment', cnt.get('refused', 0))
        for v in viols:
            res.violate(*v)
        last = {}
        pairs = 0
        pending = {}
        for s in steps:
            for a in s['a']:
                if s['op'] == 'set_coef':
                    pending[a] = last.get(a)
                else:
                    if a in pending:
                        res.add('question_pairs', (pending.pop(a), s['op']))
                        pairs += 1
                    last[a] = s['op']
        res.nontrivial = cnt.get('sets_changed', 0) >= 2 and pairs >= 2
        res.key = digest(plan)
        res.log = log
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps]}
