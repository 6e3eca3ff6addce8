"""C06: algebras with the same names but different metrics never influence each other."""
import sympy

from . import genalg, genlt, gensession
from .c01 import exec_session, ref_session
from .c15 import basis_exprs
from .engine import Property, digest, fork_call
from .ops_alg import MIXES
from .ops_lt import FOREIGN, MIXLT
from .world import OPS, Lib, Raised, same_ref, same_any, show


def family(rng, k):
    """k algebra specs over the same basis names (and coordinates), with different metrics"""
    n = rng.choice([2, 2, 3])
    root = rng.choice(['e', 'f'])
    co = rng.random() < 0.4
    out = []
    while len(out) < k:
        t = rng.choice(['diag', 'diag', 'mat', 'sym', 'same'])
        if t == 'same' and out:
            s = dict(rng.choice(out))
            out.append(s)
            continue
        if t == 'mat':
            s = genalg.gen_spec(rng, small=True, allow_debug=False, kinds=['mat'])
            if s['n'] != n:
                continue
        elif t == 'sym' and n == 2:
            s = genalg.gen_spec(rng, small=True, allow_debug=False, kinds=['sym'])
            if s['n'] != n:
                continue
        else:
            s = {'kind': 'diag', 'n': n, 'g': [rng.choice([1, -1, 2, 3]) for _ in range(n)],
                 'form': rng.choice(['list', 'str', 'matrix', 'imatrix'])}
        s['root'] = root
        s.pop('coords', None)
        s.pop('nowedge', None)
        if co and s['kind'] != 'sym':
            s['coords'] = ' '.join('x%d' % i for i in range(1, n + 1))
        out.append(s)
    return out


# coordinate systems over the same coordinate symbols
FAMILIES = [['parab', 'skew', 'skewg', 'skewcurved', 'nc2'], ['cart2', 'scaled2', 'skewc2', 'hyp', 'warp', 'csym2'],
            ['polar', 'polarX'], ['mink2', 'skewl2', 'rindler'], ['cyl', 'cart3', 'mink3']]


def calc_session(rng, cfg, k):
    """fields, operators and maps on k manifolds with the same coordinates, basis names and generated symbols"""
    fam = rng.choice(FAMILIES[:4] if rng.random() < 0.9 else FAMILIES)
    cfg = dict(cfg, fixed={'basis': rng.choice(['names', 'names', 'star', 'root']), 'root': 'e'})
    if 'nc2' in fam:
        cfg['fixed']['basis'] = 'star'
    g = genlt.LtGen(rng, cfg)
    g.client = -1
    pend = k
    gone = set()
    for _ in range(2):
        pend -= 1
        g.new_man(rng.choice(fam))
    for _ in range(cfg['length']):
        g.client = rng.randrange(2)
        live = [a for a in g.mans if a not in gone]
        x = rng.random()
        m = rng.choice(live)
        co = not g.info(m).spec.get('nocoords')
        if pend > 0 and x < 0.12:
            pend -= 1
            g.new_man(rng.choice(fam))
        elif len(live) > 1 and x < 0.16:
            gone.add(m)
            g.emit('discard', [], {'alg': m})
        elif len(live) > 1 and x < 0.28:
            a, b = rng.sample(live, 2)
            if rng.random() < 0.5:
                g.emit('mix', [g.simple(a), g.simple(b)], {'k': rng.choice(MIXES)})
            elif rng.random() < 0.4 and g.lts[a] and g.lts[b]:
                g.emit('mixlt', [g.picklt(a), g.picklt(b)], {'k': rng.choice(MIXLT)})
            else:
                ks = [x for x in FOREIGN if not x.startswith(('dop', 'mvdop')) or co and not g.info(b).spec.get('nocoords')
                      and not g.info(a).spec.get('nocoords')]
                g.emit('l_foreign', [a, b], {'k': rng.choice(ks)})
        elif x < 0.33 and len(live) < 6 and g.new_sub(m) is not None:
            pass
        elif x < 0.33 + cfg['noise'] and co:
            g.noise(m)
        else:
            y = rng.random()
            if co and y < 0.35:
                g.fld_op(m)
            elif co and y < 0.6:
                g.dop_op(m)
            elif y < 0.85:
                g.lt_op(m)
            else:
                g.mlt_op(m)
    return g


def owner_of(steps):
    own = {}
    for s in steps:
        if s['op'] in ('alg', 'man'):
            own[s['id']] = s['id']
        else:
            o = {own[a] for a in s['a'] if a in own and own[a] is not None}
            own[s['id']] = o.pop() if len(o) == 1 else None
    return own


def exec_texts(steps):
    lib = Lib()
    by = {s['id']: s for s in steps}
    lib.run(steps)
    txt = {}
    from galgebra import printer
    for i, v in lib.val.items():
        if type(v).__name__ in ('Mv', 'Lt', 'Mlt', 'Dop', 'Sdop', 'Pdop'):
            try:
                # the printers simplify: texts of very large coefficients take minutes
                if sum(sympy.sympify(x).count_ops() for x in basis_exprs(v)) > 300:
                    continue
                txt[i] = (str(v), printer.latex(v))
            except Exception as e:
                txt[i] = ('raised', type(e).__name__)
    return {i: lib.canon(i, by) for i in by if i in lib.val}, txt


class C06(Property):
    id = 'C06'
    runs = {'quick': 400, 'thorough': 12000}
    rule = ('one run = one seeded session (algebra, or fields, operators and linear maps) over 2-5 algebras that share basis '
            'names, coordinates and symbols and differ in their metric; algebras are created late and discarded (with garbage collection) in between; every value '
            'and text is compared with a session in which only its own algebra exists, and with the reference; mixed '
            'expressions must be refused. Non-trivial: at least two algebras with operations, in alternation.')
    measure = 'alternations between two same-named algebras (operation before, operation after)'
    real = ['galgebra', 'sympy', 'garbage collector']
    stub = ['stdout (discarded)']
    assumptions = []

    def gen(self, rng, tier, i):
        cfg = {'algs': 0, 'clients': 2, 'length': rng.choice([14, 20, 28]), 'symbolic': rng.choice([0.0, 0.3]),
               'modes': rng.choice([0, 0.04]), 'noise': rng.choice([0, 0.1]), 'newalg': 0, 'debug': False}
        if rng.random() < 0.35:
            return {'steps': calc_session(rng, dict(cfg, length=rng.choice([9, 13, 18])), rng.choice([2, 2, 3, 4])).steps}
        specs = family(rng, rng.choice([2, 2, 3, 4, 5]))
        g = gensession.generator(rng, cfg)
        g.client = -1
        pend = list(specs)
        for _ in range(2):
            g.new_alg(pend.pop(0))
        gone = set()
        for _ in range(cfg['length']):
            g.client = rng.randrange(2)
            live = [a for a in g.algs if a not in gone]
            x = rng.random()
            if pend and x < 0.12:
                g.new_alg(pend.pop(0))
            elif len(live) > 1 and x < 0.16:
                t = rng.choice(live)
                gone.add(t)
                g.emit('discard', [], {'alg': t})
            elif len(live) > 1 and x < 0.26:
                a, b = rng.sample(live, 2)
                g.emit('mix', [g.pick(a), g.pick(b)], {'k': rng.choice(MIXES)})
            elif x < 0.26 + cfg['modes'] + cfg['noise']:
                gensession.other(g, rng, cfg, rng.choice(live))
            else:
                gensession.one_op(g, rng, cfg, rng.choice(live))
        return {'steps': g.steps}

    def run(self, plan, res):
        steps = plan['steps']
        got, txt = fork_call(exec_texts, steps)
        res.inc('ops', len(got))
        ref = ref_session(steps)
        own = owner_of(steps)
        by = {s['id']: s for s in steps}
        gone = False
        for s in steps:
            if s['op'] == 'discard':
                res.inc('fault:discard_algebra')
                gone = True
            if s['op'] in ('mix', 'mixlt', 'l_foreign'):
                c = got.get(s['id'])
                x, y = (own.get(a) for a in s['a']) if len(s['a']) == 2 else (None, None)
                if c is not None and x != y:
                    res.inc('mixed')
                    if c != ('bool', True):
                        res.violate('mix-accepted', 'step %d: %s of objects of algebras %s and %s gave a result' % (
                            s['id'], s['p']['k'], x, y), s['p']['k'])
        prev = None
        alts = 0
        for s in steps:
            o = own.get(s['id'])
            if o is not None and s['op'] not in ('alg', 'man'):
                if prev is not None and prev[0] != o:
                    res.add('alternations', (prev[1], s['op']))
                    alts += 1
                prev = (o, s['op'])
        for a in sorted({o for o in own.values() if o is not None}):
            mine = [s for s in steps if own.get(s['id']) == a or 'sets_mode' in OPS[s['op']].tags or s['op'] == 'simp_profile']
            solo, stxt = fork_call(exec_texts, mine)
            res.inc('solo_sessions')
            for s in mine:
                i = s['id']
                if i not in got:
                    continue
                if not same_any(got[i], solo.get(i)):
                    res.violate('influence', 'step %d %s%s: beside the other algebras %s, alone %s' % (
                        i, s['op'], s['p'], show(got[i]), show(solo.get(i))), s['op'])
                elif txt.get(i) != stxt.get(i):
                    res.violate('text-influence', 'text of step %d %s%s: beside the other algebras %s, alone %s' % (
                        i, s['op'], s['p'], txt.get(i), stxt.get(i)), s['op'])
                w = ref.val.get(i)
                if w is not None and got[i] is not None and got[i][0] not in ('raised', 'bad', 'nonum') and \
                        same_ref(got[i], (OPS[s['op']].rett, w)) is False:
                    res.violate('wrong-value', 'step %d %s%s: %s, reference %s' % (
                        i, s['op'], s['p'], show(got[i]), show((OPS[s['op']].rett, w))), s['op'])
        res.nontrivial = alts >= 2
        res.key = digest(steps)
        res.log = [(i, show(got[i])) for i in sorted(got)]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps]}
