"""Seeded generator of sessions with linear and multilinear maps."""
from . import ops_lt
from .gencalc import CalcGen, PATCHES, _d, sq
from .ops_lt import FOREIGN, FUNS, LFAIL
from .refmodel import Undefined
from .world import OPS

LPATCHES = dict(PATCHES)
LPATCHES.update({
    'cart4': (dict(coords=['t', 'x', 'y', 'z'], g=_d(1, -1, -1, -1)), True, 1),
    'nc2': (dict(coords=['u', 'v'], g=[[2, 1], [1, 3]], nocoords=True), True, 2),
    'nc3': (dict(coords=['p', 'q', 's'], g=[[1, 0, 1], [0, -1, 0], [1, 0, 3]], nocoords=True), True, 1),
    'csym2': (dict(coords=['x', 'y'], g=[['a', 'b'], ['b', 3]]), True, 1),
})
WEIGHTS = {'cart2': 3, 'cart3': 3, 'skewc2': 4, 'skewl2': 2, 'scaled2': 3, 'mink2': 1, 'mink3': 1, 'polar': 4, 'cyl': 1, 'sph': 1,
           'skew': 2, 'skewg': 2, 'rindler': 2, 'sphere': 2, 'hyp': 1, 'line': 1, 'cart4': 1, 'nc2': 3, 'nc3': 1, 'csym2': 2,
           'parab': 1}
COST = 4      # most terms of a symbolic map before it is left alone


class LtGen(CalcGen):
    patches = LPATCHES

    def __init__(self, rng, cfg, gen=None):
        CalcGen.__init__(self, rng, cfg, gen)
        self.lts, self.mlts = {}, {}
        self.cost = {}

    def new_man(self, name=None, pool=None):
        r = self.rng
        if name is None:
            name = r.choices(list(WEIGHTS), list(WEIGHTS.values()))[0]
        i = CalcGen.new_man(self, name)
        self.lts[i], self.mlts[i] = [], []
        return i

    def new_sub(self, base):
        i = CalcGen.new_sub(self, base)
        if i is not None:
            self.lts[i], self.mlts[i] = [], []
        return i

    def emit(self, name, args, p=None):
        i = CalcGen.emit(self, name, args, p)
        o = OPS[name]
        m = self.R.alg_of.get(i)
        if o.rett == 'lt':
            self.lts[m].append(i)
        elif o.rett == 'mlt':
            self.mlts[m].append(i)
        return i

    def num(self, m):
        r = self.rng
        return r.choice([0, 0, 1, 1, 2, -1, 3, '1/2'])

    def entry(self, m, rich):
        r = self.rng
        x = r.random()
        if rich and x < 0.3:
            return r.choice([self.atom(m), 'a', ['*', 2, self.atom(m)], ['**', self.atom(m), 2], ['+', 1, self.atom(m)]])
        return self.num(m)

    def vector(self, m, rich=None):
        r = self.rng
        n = self.info(m).n
        pool = [i for i in self.flds[m] if self.R.val.get(i) and all(bin(q).count('1') == 1 for q in self.R.val[i]) and self.c(i) < 2]
        if pool and r.random() < 0.4:
            return r.choice(pool[-6:])
        if r.random() < 0.3:
            return self.emit('f_basis', [m], {'i': r.randrange(n)})
        rich = r.random() < 0.4 if rich is None else rich
        c = [self.entry(m, rich) for _ in range(n)]
        if all(x == 0 for x in c):
            c[0] = 1
        return self.emit('f_vec', [m], {'c': c, 'how': r.random() < 0.5})

    def grade(self, i):
        v = self.R.val.get(i)
        return None if v is None else {bin(q).count('1') for q in v}

    # ---- linear maps
    def new_lt(self, m):
        r = self.rng
        I = self.info(m)
        n = I.n
        k = r.choice(['make'] * 5 + ['name'] * 2 + ['fun'] * 3 + ['vers'] * 2)
        if k == 'make':
            rich = r.random() < 0.4
            M = [[self.entry(m, rich) for _ in range(n)] for _ in range(n)]
            if r.random() < 0.15 and n > 1:
                M[r.randrange(n)] = [0] * n
            return self.mark(self.emit('l_make', [m], {'m': M, 'how': r.choice(
                ['matrix', 'imatrix', 'rows', 'vectors', 'mvdict', 'dict', 'dict', 'partial']), 'direct': r.random() < 0.3}),
                1 if rich else 0.3)
        if k == 'name':
            if I.spec.get('nocoords') or n > 3:
                return self.new_lt(m)
            return self.mark(self.emit('l_name', [m], {'name': r.choice('LMA'), 'mode': r.choice('gggsa') if n > 1 else 'g',
                                                       'f': r.random() < 0.3, 'say': r.random() < 0.3}), 2 if n < 3 else 3)
        if k == 'fun':
            q = r.choice(['outer', 'biv', 'refl', 'scale'])
            p = {'k': q, 's': r.choice([1, 2, 'a', 0, self.atom(m)])}
            if q == 'outer':
                a = [m, self.vector(m), self.vector(m)]
            elif q == 'biv':
                if n < 2:
                    return self.new_lt(m)
                b = r.choice([q for q in range(1, 1 << n) if bin(q).count('1') == 2])
                from .ops_alg import all_masks
                a = [m, self.emit('f_blade', [m], {'k': all_masks(n).index(b)})]
            elif q == 'refl':
                a = [m, self.vector(m, False)]
            else:
                a = [m]
            return self.mark(self.emit('l_fun', a, p), 1)
        if not I.constant and r.random() < 0.7 or n > 3:
            return self.new_lt(m)
        v = self.vector(m, False)
        if r.random() < 0.6 and n > 1:
            v = self.emit('f_bin', [v, self.vector(m, False)], {'m': '*'})
        return self.mark(self.emit('l_vers', [v], {}), 2)

    def picklt(self, m, cost=2.5):
        pool = [i for i in self.lts[m] if self.R.val.get(i) is not None and self.c(i) <= cost]
        if pool and self.rng.random() < 0.7:
            return self.rng.choice(pool[-5:])
        for _ in range(6):
            i = self.new_lt(m)
            if self.c(i) <= cost:
                return i
        return i

    def small(self, m):
        """a field with few, plain coefficients"""
        r = self.rng
        pool = [i for i in self.flds[m] if self.ok(i) and self.c(i) <= 1]
        if pool and r.random() < 0.5:
            return r.choice(pool[-6:])
        x = r.random()
        if x < 0.35:
            return self.vector(m)
        n = self.info(m).n
        if x < 0.6:
            return self.emit('f_blade', [m], {'k': r.randrange(1 << n)})
        from .ops_alg import all_masks
        ms = all_masks(n)
        ms = r.sample(ms, min(len(ms), r.choice([1, 2, 3])))
        return self.emit('f_make', [m], {'c': [[q, r.choice([1, 2, 'a', self.atom(m)])] for q in ms], 'how': 'mv'})

    def lt_op(self, m):
        r = self.rng
        n = self.info(m).n
        k = r.choice(['new', 'call', 'call', 'call', 'bin', 'bin', 'bin', 'scale', 'adj', 'adj', 'inv', 'inv', 'det', 'tr', 'matrix',
                      'matrix', 'sing', 'text', 'fail', 'foreign'])
        if k == 'new':
            return self.new_lt(m)
        if k == 'call':
            a, b = self.picklt(m), self.small(m)
            return self.mark(self.emit('l_call', [a, b], {'how': r.choice(['', '', 'obj', 'expr', 'base'])}), self.c(a) + self.c(b))
        if k == 'bin':
            a, b = self.picklt(m, 2), self.picklt(m, 2)
            o = r.choice('+-**')
            return self.mark(self.emit('l_bin', [a, b], {'m': o}), self.c(a) + self.c(b) if o == '*' else max(self.c(a), self.c(b)) + 0.3)
        if k == 'scale':
            a = self.picklt(m)
            return self.mark(self.emit('l_scale', [a], {'e': self.entry(m, True), 'how': r.choice('lr') if r.random() < 0.8 else 'mv'}),
                             self.c(a) + 0.3)
        if k == 'adj':
            a = self.picklt(m)
            return self.mark(self.emit('l_adj', [a]), self.c(a) + (0.5 if not self.info(m).ortho else 0.2))
        if k == 'inv':
            a = self.picklt(m, 1.1 if n > 2 else 2)
            return self.mark(self.emit('l_inv', [a]), self.c(a) + 1)
        if k == 'sing':
            return self.emit('l_sing', [self.picklt(m, 1.1 if n > 2 else 2)])
        if k in ('det', 'tr', 'matrix'):
            return self.emit('l_' + k, [self.picklt(m)], {'how': r.random() < 0.5, 'poke': r.random() < 0.5})
        if k == 'text':
            return self.emit('l_text', [self.picklt(m)], {'k': r.choice(['str', 'latex', 'repr', 'fmt', 'fmtlatex', 'titled']),
                                                          'f': r.choice([1, 2, 3])})
        if k == 'foreign' and len(self.mans) > 1:
            o = r.choice(self.mans)
            ks = [x for x in FOREIGN if not x.startswith(('dop', 'mvdop')) or not (self.info(m).spec.get('nocoords') or
                                                                                self.info(o).spec.get('nocoords'))]
            return self.emit('l_foreign', [m, o], {'k': r.choice(ks)})
        return self.emit('l_fail', [m], {'k': r.choice(LFAIL)})

    # ---- multilinear maps
    def size(self, i):
        v = self.R.val.get(i)
        return None if v is None else (v['n'], sum(len(x) for x in v['v'].values()))

    def new_mlt(self, m, want=None):
        r = self.rng
        I = self.info(m)
        n = I.n
        lim = 3 if n <= 2 else 2
        k = r.choice(['name', 'name', 'fun', 'fun', 'fun', 'expr', 'expr', 'vec', 'lt'])
        cst = 1
        if k == 'name':
            nn = want or r.choice([1, 2, 2, lim])
            f = r.random() < 0.5 and not I.spec.get('nocoords')
            i = self.emit('m_make', [m], {'k': 'name', 'name': r.choice('TS'), 'n': nn, 'f': f, 'meth': r.random() < 0.5})
            cst = 2 if f else 1
        elif k == 'fun':
            names = [q for q, v in FUNS.items() if v[0] <= lim and (want is None or v[0] == want)]
            if not names:
                return self.new_mlt(m, want)
            q = r.choice(names)
            args = [m] + [self.vector(m) if c == 'v' else self.small(m) for c in FUNS[q][1]]
            i = self.emit('m_make', args, {'k': 'fun', 'f': q, 'meth': r.random() < 0.5})
        elif k == 'expr':
            nn = want or r.choice([1, 2, lim])
            ts = [[self.entry(m, True), [r.randrange(n) for _ in range(nn)]] for _ in range(r.choice([1, 2, 3]))]
            i = self.emit('m_make', [m], {'k': 'expr', 't': ts, 'n': nn})
        elif k == 'vec':
            if want not in (None, 1):
                return self.new_mlt(m, want)
            i = self.emit('m_make', [m, self.vector(m)], {'k': 'vec'})
        else:
            if want not in (None, 2):
                return self.new_mlt(m, want)
            i = self.emit('m_make', [m, self.picklt(m, 2)], {'k': 'lt'})
        return self.mark(i, cst)

    def pickm(self, m, want=None, lo=0, hi=3, cost=3):
        pool = [i for i in self.mlts[m] if self.R.val.get(i) is not None and lo <= self.R.val[i]['n'] <= hi and self.c(i) <= cost and
                (want is None or self.R.val[i]['n'] == want)]
        if pool and self.rng.random() < 0.65:
            return self.rng.choice(pool[-5:])
        for _ in range(8):
            i = self.new_mlt(m, want)
            v = self.R.val.get(i)
            if v is not None and lo <= v['n'] <= hi and self.c(i) <= cost:
                return i
        return self.emit('m_make', [m], {'k': 'name', 'name': 'Q', 'n': want or max(lo, 1), 'f': False})

    def mlt_op(self, m):
        r = self.rng
        I = self.info(m)
        n = I.n
        lim = 3 if n <= 2 else 2
        k = r.choice(['new', 'call', 'call', 'call', 'add', 'add', 'mul', 'mul', 'scale', 'contract', 'contract', 'pdiff', 'dd', 'cderiv',
                      'cderiv', 'expand', 'text', 'text'])
        if n > 3 or k == 'new':
            return self.new_mlt(m, 1 if n > 3 else None)
        if k == 'call':
            a = self.pickm(m, lo=1)
            nn = self.R.val[a]['n']
            return self.mark(self.emit('m_call', [a] + [self.vector(m) for _ in range(nn)]), 1 + self.c(a))
        if k == 'add':
            a = self.pickm(m, lo=1)
            b = self.pickm(m, want=self.R.val[a]['n'])
            return self.mark(self.emit('m_bin', [a, b], {'m': r.choice('+-')}), max(self.c(a), self.c(b)) + 0.2)
        if k == 'mul':
            a = self.pickm(m, lo=1, hi=lim - 1, cost=2)
            b = self.pickm(m, lo=1, hi=lim - self.R.val[a]['n'], cost=2)
            if self.R.val[a]['n'] + self.R.val[b]['n'] > lim:
                return a
            return self.mark(self.emit('m_bin', [a, b], {'m': r.choice('***^|')}), self.c(a) + self.c(b))
        if k == 'scale':
            a = self.pickm(m)
            return self.mark(self.emit('m_scale', [a], {'e': self.entry(m, True)}), self.c(a) + 0.2)
        if k == 'contract':
            a = self.pickm(m, lo=2)
            nn = self.R.val[a]['n']
            i, j = r.sample(range(1, nn + 1), 2)
            return self.mark(self.emit('m_contract', [a], {'i': i, 'j': j}), self.c(a) + 0.5)
        if k == 'pdiff':
            a = self.pickm(m, lo=1)
            return self.mark(self.emit('m_pdiff', [a], {'i': r.randint(1, self.R.val[a]['n'])}), self.c(a) + 2)
        if k in ('dd', 'cderiv'):
            if I.spec.get('nocoords'):
                return self.new_mlt(m)
            a = self.pickm(m, lo=1, hi=lim - 1, cost=2)
            if self.R.val[a]['n'] >= lim:
                return a
            return self.mark(self.emit('m_' + k, [a]), self.c(a) + 1.3)
        if k == 'expand':
            a = self.pickm(m)
            return self.mark(self.emit('m_expand', [a]), self.c(a))
        a = self.pickm(m)
        return self.emit('m_text', [a], {'k': r.choice(['str', 'latex', 'repr', 'fmt', 'fmtlatex', 'titled', 'comps']),
                                         'f': r.choice([1, 2, 3])})


def session(rng, cfg):
    g = LtGen(rng, cfg)
    names = cfg.get('patches')
    for _ in range(cfg.get('mans', 1)):
        m = g.new_man(rng.choice(names) if names else None)
        if rng.random() < cfg.get('subs', 0.1):
            g.new_sub(m)
    for _ in range(cfg['length']):
        g.client = rng.randrange(cfg.get('clients', 1))
        m = rng.choice(g.mans)
        x = rng.random()
        if x < cfg.get('noise', 0.1) and not g.info(m).spec.get('nocoords'):
            g.noise(m)
        elif x < 0.14 and len(g.mans) < 3:
            g.new_man()
        elif rng.random() < 0.15 and not g.info(m).spec.get('nocoords'):
            g.fld_op(m)
        elif rng.random() < cfg.get('mlt', 0.45):
            g.mlt_op(m)
        else:
            g.lt_op(m)
    return g
