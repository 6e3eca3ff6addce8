"""Seeded generator of calculus sessions: coordinate systems, submanifolds, fields, derivatives, operators."""
import copy

from . import ops_calc
from .ops_alg import all_masks
from .ops_calc import CFAIL, REWRITES
from .refmodel import TINY, Undefined
from .world import OPS, Ref


def _d(*a):
    n = len(a)
    return [[a[i] if i == j else 0 for j in range(n)] for i in range(n)]


def sq(x):
    return ['**', x, 2]


S = lambda x: ['sin', x]
C = lambda x: ['cos', x]
# name -> (spec, flat, weight)
PATCHES = {
    'cart2': (dict(coords=['x', 'y'], g=_d(1, 1)), True, 2),
    'cart3': (dict(coords=['x', 'y', 'z'], g=_d(1, 1, 1)), True, 3),
    'mink2': (dict(coords=['t', 'x'], g=_d(1, -1)), True, 1),
    'mink3': (dict(coords=['t', 'x', 'y'], g=_d(-1, 1, 1)), True, 1),
    'scaled2': (dict(coords=['x', 'y'], g=_d(2, 3)), True, 1),
    'skewc2': (dict(coords=['x', 'y'], g=[[2, 1], [1, 3]]), True, 2),
    'skewl2': (dict(coords=['t', 'x'], g=[[1, 1], [1, -1]]), True, 1),
    'line': (dict(coords=['x'], g=_d(1)), True, 1),
    'polar': (dict(coords=['r', 'th'], g=_d(1, sq('r'))), True, 4),
    'polarX': (dict(coords=['r', 'th'], X=[['*', 'r', C('th')], ['*', 'r', S('th')]]), True, 2),
    'cyl': (dict(coords=['r', 'th', 'z'], g=_d(1, sq('r'), 1)), True, 2),
    'sph': (dict(coords=['r', 'th', 'ph'], g=_d(1, sq('r'), ['*', sq('r'), sq(S('th'))])), True, 3),
    'sphX': (dict(coords=['r', 'th', 'ph'], X=[['*', 'r', S('th'), C('ph')], ['*', 'r', S('th'), S('ph')],
                                               ['*', 'r', C('th')]]), True, 1),
    'parab': (dict(coords=['u', 'v'], g=_d(['+', sq('u'), sq('v')], ['+', sq('u'), sq('v')])), True, 2),
    'skew': (dict(coords=['u', 'v'], X=[['+', 'u', ['*', 2, sq('v')]], 'v']), True, 3),
    'skewg': (dict(coords=['u', 'v'], g=[[1, 'v'], ['v', ['+', 1, sq('v')]]]), True, 2),
    'skew3': (dict(coords=['u', 'v', 'w'], X=[['+', 'u', sq('v')], ['+', 'v', sq('w')], 'w']), True, 1),
    'rindler': (dict(coords=['x', 't'], g=_d(1, ['*', -1, sq('x')])), True, 2),
    'hyp': (dict(coords=['x', 'y'], g=_d(1, ['exp', ['*', 2, 'x']])), False, 2),
    'warp': (dict(coords=['x', 'y'], g=_d(1, sq(['+', 1, sq('x')]))), False, 2),
    'warpf': (dict(coords=['x', 'y'], g=_d(1, sq(['f', 'h', 'x']))), False, 1),
    'sphere': (dict(coords=['theta', 'phi'], g=_d(1, sq(S('theta')))), False, 3),
    'skewcurved': (dict(coords=['u', 'v'], g=[[['+', 1, sq('u')], 'v'], ['v', ['+', 2, sq('v')]]]), False, 2),
    'schwarz': (dict(coords=['t', 'r'], g=_d(['/', ['+', 2, 'r'], 'r'], ['*', -1, ['/', 'r', ['+', 2, 'r']]])), False, 1),
}
# submanifolds: base patch -> specs with map u
SUBS = {
    'cart3': [dict(coords=['theta', 'phi'], u=[['*', S('theta'), C('phi')], ['*', S('theta'), S('phi')], C('theta')]),
              dict(coords=['u', 'v'], u=['u', 'v', ['+', sq('u'), sq('v')]]),
              dict(coords=['phi', 'z'], u=[['*', 2, C('phi')], ['*', 2, S('phi')], 'z']),
              dict(coords=['theta', 'phi'], u=[['*', ['+', 3, C('theta')], C('phi')], ['*', ['+', 3, C('theta')], S('phi')],
                                               S('theta')]),
              dict(coords=['s'], u=[C('s'), S('s'), 's']), dict(coords=['x', 'y'], u=['y', 'x', ['*', 'x', 'y']])],
    'cart2': [dict(coords=['s'], u=['s', sq('s')]), dict(coords=['s', 'q'], u=[['+', 's', 'q'], ['*', 's', 'q']])],
    'sph': [dict(coords=['theta', 'phi'], u=[1, 'theta', 'phi']), dict(coords=['r', 'th'], u=['th', 'r', 1]), dict(coords=['s'], u=[2, 's', 's'])],
    'cyl': [dict(coords=['s', 'q'], u=['s', 'q', sq('s')])],
    # (some reuse the coordinate symbols of the base for something else)
    'polar': [dict(coords=['s'], u=['s', ['*', 2, 's']]), dict(coords=['th', 'r'], u=['th', 'r']),
              dict(coords=['r'], u=[['+', 1, 'r'], 'r'])],
    'sphere': [dict(coords=['s'], u=['s', ['*', 2, 's']]), dict(coords=['phi', 'theta'], u=['phi', 'theta'])],
    'rindler': [dict(coords=['t', 'x'], u=['t', ['*', 2, 'x']])],
    'skewg': [dict(coords=['u', 'v'], u=['v', ['+', 'u', 'v']])],
    'warp': [dict(coords=['y', 'x'], u=['y', 'x'])],
    'hyp': [dict(coords=['x', 'y'], u=['y', ['*', 'x', 'y']])],
}


class CalcGen:
    """emits steps; keeps, per algebra, the live fields, operators and scalar operators"""

    def __init__(self, rng, cfg, gen=None):
        self.rng, self.cfg = rng, cfg
        self.g = gen
        if gen is None:
            self.steps, self.ref, self.next = [], Ref(), 0
        self.client = 0
        self.mans = []
        self.flds, self.doprs, self.sops = {}, {}, {}
        self.kind = {}
        self.made, self.kept = {}, {}

    # ---- emission (into our own list or a shared Gen)
    def emit(self, name, args, p=None):
        if self.g is not None:
            i = self.g.next
            self.g.next += 1
            st = {'id': i, 'op': name, 'a': list(args), 'p': p or {}, 'c': self.g.client}
            self.g.steps.append(st)
            ref = self.g.ref
        else:
            i = self.next
            self.next += 1
            st = {'id': i, 'op': name, 'a': list(args), 'p': p or {}, 'c': self.client}
            self.steps.append(st)
            ref = self.ref
        ref.step(st)
        o = OPS[name]
        m = ref.alg_of.get(i)
        if o.rett == 'man':
            self.mans.append(i)
            self.flds[i], self.doprs[i], self.sops[i] = [], [], []
        elif o.rett == 'fld':
            self.flds[m].append(i)
        elif o.rett == 'dopr':
            self.doprs[m].append(i)
        elif o.rett == 'sop':
            self.sops[m].append(i)
        return i

    @property
    def R(self):
        return self.g.ref if self.g is not None else self.ref

    def info(self, m):
        return self.R.info[m]

    # ---- coordinate systems
    patches = PATCHES

    def new_man(self, name=None, pool=None):
        r = self.rng
        if name is None:
            names = pool or list(self.patches)
            name = r.choices(names, [self.patches[k][2] for k in names])[0]
        spec, flat, _ = self.patches[name]
        spec = copy.deepcopy(spec)
        spec['flat'] = flat
        n = len(spec['coords'])
        if r.random() < 0.4 and name != 'schwarz' and ops_calc.ManInfo(spec).ortho:
            spec['norm'] = True
        if n > 1:
            spec['basis'] = r.choice(['names', 'star'] if spec.get('nocoords') else ['names', 'names', 'star', 'root'])
        spec['root'] = r.choice(['e', 'e', 'e', 'b'])
        spec.update({k: v for k, v in self.cfg.get('fixed', {}).items() if n > 1})
        if 'g' in spec:
            diag = all(spec['g'][i][j] == 0 for i in range(n) for j in range(n) if i != j)
            spec['form'] = r.choice(['list', 'matrix', 'imatrix'] + (['diag'] * 2 if diag else []))
        spec['colist'] = r.random() < 0.3
        spec['build'] = r.random() < 0.2
        i = self.emit('man', [], spec)
        assert i in self.R.info, spec
        self.kind[i] = name
        return i

    def new_sub(self, base):
        r = self.rng
        name = self.kind.get(base)
        if name not in SUBS or self.info(base).norm:
            return None
        spec = copy.deepcopy(r.choice(SUBS[name]))
        spec['root'] = r.choice(['f', 'f', 'e'])
        try:
            spec['norm'] = r.random() < 0.35 and ops_calc.ManInfo(dict(spec, base=self.info(base).spec)).ortho
        except Undefined:
            return None
        spec['flat'] = len(spec['coords']) == 1
        spec['colist'] = r.random() < 0.3
        i = self.emit('sm', [base], spec)
        if i not in self.R.info:
            self.mans.remove(i)
            return None
        self.kind[i] = 'sub'
        return i

    # ---- expressions
    def atom(self, m):
        return self.rng.choice(self.info(m).coords)

    def expr(self, m, depth=2):
        r = self.rng
        x = r.random()
        if depth == 0 or x < 0.3:
            return r.choice([self.atom(m), self.atom(m), 2, 3, -1, '1/2', 'a'])
        if x < 0.55:
            return ['*', self.expr(m, depth - 1), self.expr(m, depth - 1)]
        if x < 0.75:
            return ['+', self.expr(m, depth - 1), self.expr(m, depth - 1)]
        if x < 0.85:
            return ['**', self.atom(m), r.choice([2, 2, 3])]
        if x < 0.95:
            return [r.choice(['sin', 'cos', 'sin', 'exp']), self.atom(m)]
        return ['/', self.expr(m, depth - 1), ['+', 1, sq(self.atom(m))]]

    def fun(self, m, big=False):
        """a coefficient: mostly a small function of the coordinates"""
        r = self.rng
        x = r.random()
        if r.random() < self.cfg.get('unsimple', 0):
            # forms that depend on the simplification profile
            a, b = self.atom(m), r.choice([2, 3, 'a', self.atom(m)])
            return r.choice([['+', ['*', b, sq(S(a))], ['*', b, sq(C(a))]], ['+', sq(S(a)), sq(C(a)), b],
                             ['*', a, ['+', a, b]], ['+', ['*', a, ['+', b, 1]], ['*', -1, ['*', a, b]]],
                             ['/', ['+', sq(a), a], a]])
        if x < 0.2:
            return self.atom(m)
        if x < 0.35:
            return ['f', r.choice(['f', 'p']), *self.info(m).coords]
        if x < 0.45:
            return ['*', self.atom(m), self.atom(m)]
        return self.expr(m, 2)

    # ---- fields
    def field(self, m):
        r = self.rng
        I = self.info(m)
        n = I.n
        k = r.choice(['make', 'make', 'make', 'make', 'vec', 'vec', 'name', 'name', 'basis', 'blade', 'recip', 'pos'])
        if k == 'make':
            ms = all_masks(n)
            ms = r.sample(ms, min(len(ms), r.choice([1, 1, 2, 3])))
            return self.emit('f_make', [m], {'c': [[q, self.fun(m)] for q in ms], 'how': r.choice(['mv', 'expr'])})
        if k == 'vec':
            return self.emit('f_vec', [m], {'c': [self.fun(m) for _ in range(n)], 'how': r.random() < 0.5})
        if k == 'name':
            kinds = ['scalar', 'scalar', 'vector', 'vector', 'vector', 'pseudo']
            if n <= 2:
                kinds += ['even', 'mv']
            if n >= 2:
                kinds.append('bivector')
            if n == 3 and r.random() < 0.2:
                kinds = ['even', 'mv']
            return self.emit('f_name', [m], {'name': r.choice(['A', 'f', 'V']), 'kind': r.choice(kinds),
                                             'f': r.random() < 0.8})
        if k == 'basis':
            return self.emit('f_basis', [m], {'i': r.randrange(n)})
        if k == 'blade':
            return self.emit('f_blade', [m], {'k': r.randrange(1 << n)})
        if k == 'recip':
            return self.emit('f_recip', [m], {'i': r.randrange(n)})
        return self.emit('f_pos', [m])

    def pick(self, m, maxorder=3):
        pool = [i for i in self.flds[m] if self.ok(i)]
        if pool and self.rng.random() < 0.6:
            return self.rng.choice(pool[-8:])
        return self.field(m)

    def ok(self, i):
        """is the value small and known to enough orders to go on with"""
        v = self.R.val.get(i)
        if v is None:
            return False
        return all(getattr(c, 'o', 3) >= 1 for c in v.values()) and self.cost.get(i, 0) <= 3

    cost = None

    def simple(self, m):
        """a field that is not the result of many derivatives"""
        pool = [i for i in self.flds[m] if self.ok(i) and self.cost.get(i, 0) <= 1]
        if pool and self.rng.random() < 0.5:
            return self.rng.choice(pool[-8:])
        return self.field(m)

    def mark(self, i, c):
        if self.cost is None:
            self.cost = {}
        self.cost[i] = c
        return i

    def c(self, i):
        return self.cost.get(i, 0)

    def fld_op(self, m):
        r = self.rng
        I = self.info(m)
        k = r.choice(['bin', 'bin', 'bin', 'un', 'scale', 'grad', 'grad', 'grad', 'grad', 'dir', 'diff', 'diff', 'list', 'lap',
                      'conn', 'dblade', 'dblade', 'chris', 'ginv', 'field', 'vgrad', 'vgrad'])
        n = I.n
        if self.cost is None:
            self.cost = {}
        if k == 'bin':
            a, b = self.simple(m), self.simple(m)
            return self.mark(self.emit('f_bin', [a, b], {'m': r.choice(['+', '-', '*', '*', '^', '|', '<', '>'])}),
                             self.c(a) + self.c(b) + 0.5)
        if k == 'un':
            a = self.pick(m)
            u = r.choice(['grade', 'rev', 'neg', 'invol', 'expand', 'simplify', 'trigsimp'])
            if u in ('simplify', 'trigsimp') and self.c(a) > 1:
                u = 'expand'
            p = {'k': u}
            if u == 'grade':
                p['r'] = r.randint(0, n)
            return self.mark(self.emit('f_un', [a], p), self.c(a))
        if k == 'scale':
            a = self.pick(m)
            how = r.choice(['l', 'l', 'r', 'd'])
            e = self.fun(m) if how != 'd' else r.choice([2, 'a', self.atom(m)])
            return self.mark(self.emit('f_scale', [a], {'e': e, 'how': how}), self.c(a) + 0.5)
        if k == 'grad':
            a = self.pick(m)
            return self.mark(self.emit('d_grad', [a], {'m': r.choice(['*', '*', '^', '|', '<', '>']),
                                                       'left': r.random() < 0.65, 'how': r.random() < 0.3}), self.c(a) + 1)
        if k == 'dir':
            a = r.choice([self.emit('f_vec', [m], {'c': [self.fun(m) for _ in range(n)]}),
                          self.emit('f_basis', [m], {'i': r.randrange(n)})])
            b = self.pick(m)
            return self.mark(self.emit('d_dir', [a, b], {'how': r.choice(['left', 'right'])}), self.c(b) + 1)
        if k == 'diff':
            a = self.pick(m)
            return self.mark(self.emit('d_diff', [a], {'k': r.randrange(n), 'how': r.choice(
                ['diff', 'diff', 'pdiff', 'Pdop', 'Pdop*', 'Sdop', 'pDiff'])}), self.c(a) + 1)
        if k == 'list':
            a = self.pick(m)
            o = [0] * n
            tot = r.choice([1, 1, 2, 2, 3])
            if I.flat:
                for _ in range(tot):
                    o[r.randrange(n)] += 1
            else:
                o[r.randrange(n)] = min(tot, 2)
            return self.mark(self.emit('d_list', [a], {'o': o, 'how': r.choice(['list', 'Pdop'])}), self.c(a) + sum(o))
        if k == 'vgrad':
            # a derivative by a multivector of coordinates, kept and used again later
            if I.norm:
                return self.fld_op(m)
            pool = self.kept.setdefault(m, [])
            if not pool or r.random() < 0.5:
                pool.append(self.vderiv(m, r.random() < 0.5))
            a = self.pick(m)
            return self.mark(self.emit('o_apply', [r.choice(pool[-4:]), a], {'m': r.choice(['*', '*', '^', '|', '<', '>'])}),
                             self.c(a) + (1 if I.ortho or I.constant else 2.5))
        if k == 'lap':
            if not I.flat:
                return self.fld_op(m)
            a = self.simple(m)
            return self.mark(self.emit('d_lap', [a], {'m': r.choice(['*', '|']), 'left': r.random() < 0.7}), self.c(a) + 2)
        if k == 'conn':
            return self.mark(self.emit('conn', [m], {'i': 0, 'k': r.randrange(1, 1 << n), 'm': r.choice(['*', '^', '|', '<', '>']),
                                                     'left': r.random() < 0.5}), 1)
        if k == 'dblade':
            return self.mark(self.emit('dblade', [m], {'i': r.randrange(n), 'k': r.randrange(1, 1 << n),
                                                       'how': r.random() < 0.5}), 1)
        if k == 'chris':
            return self.emit('chris', [m], {'mode': r.choice([1, 2])})
        if k == 'ginv':
            return self.emit('m_ginv', [m])
        return self.field(m)

    def noise(self, m):
        r = self.rng
        a = self.pick(m)
        x = r.random()
        if x < 0.35:
            return self.emit('c_fail', [a], {'k': r.choice(CFAIL)})
        if x < 0.8:
            return self.emit('f_text', [a], {'k': r.choice(['str', 'latex', 'repr', 'fmt', 'fmtlatex', 'titled']),
                                             'f': r.choice([1, 2, 3])})
        if self.doprs[m]:
            return self.emit('o_text', [r.choice(self.doprs[m])], {'k': r.choice(['str', 'latex', 'repr', 'fmt', 'fmtlatex']),
                                                                   'f': r.choice([1, 2, 3])})
        return self.field(m)

    # ---- operators
    def alpha(self, m, tot=None):
        r = self.rng
        n = self.info(m).n
        o = [0] * n
        t = r.choice([0, 1, 1, 1, 2]) if tot is None else tot
        for _ in range(t):
            o[r.randrange(n)] += 1
        return o

    def dop(self, m, cmp_=None):
        r = self.rng
        if cmp_ is None:
            cmp_ = r.random() < 0.3
        x = r.random()
        if x < 0.15 and not self.info(m).norm:
            return self.vderiv(m, cmp_)
        if x < 0.4:
            return self.mark(self.emit('o_grad', [m], {'left': not cmp_, 'how': r.random() < 0.3}), 1)
        how = r.choice(['terms', 'terms', 'lists', 'sdop'])
        ts = []
        for _ in range(r.choice([1, 2, 2, 3])):
            ms = r.sample(all_masks(self.info(m).n), 1 if how == 'sdop' else r.choice([1, 1, 2]) if self.info(m).n > 1 else 1)
            ts.append([self.alpha(m), [[q, self.fun(m)] for q in ms]])
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            # a repeated derivative: one coefficient adds to the other or takes it away
            al, c = r.choice(ts)
            c = copy.deepcopy(c) if r.random() < 0.2 else [[q, ['*', -1, e]] for q, e in copy.deepcopy(c)]
            ts.insert(r.randint(0, len(ts)), [al, c])
        return self.mark(self.emit('o_make', [m], {'t': ts, 'cmp': cmp_, 'how': how}), max(sum(t[0]) for t in ts) or 0.5)

    def vderiv(self, m, cmp_):
        """derivative by a multivector of coordinates, often one that was used before on the other side"""
        r = self.rng
        n = self.info(m).n
        pool = self.made.setdefault(m, [])
        if pool and r.random() < 0.6:
            made, form = r.choice(pool)
            if form == 'seq' and r.random() < 0.3:
                form = 'mv'
        else:
            ks = r.sample(range(n), r.choice([n, n, r.randint(1, n)]))
            form = r.choice(['seq', 'mv', 'mv', 'pos'])
            ms = [1 << k for k in range(n)] if form == 'seq' or r.random() < 0.6 else all_masks(n)[1:]
            made = [[q, k] for q, k in zip(r.sample(ms, min(len(ms), len(ks))), ks)]
            pool.append((made, form))
        return self.mark(self.emit('o_grad', [m], {'left': not cmp_, 'made': made, 'form': form}), 1)

    def pickd(self, m, cmp_=None, cost=2):
        pool = [i for i in self.doprs[m] if self.R.val.get(i) is not None and self.c(i) <= cost and
                (cmp_ is None or self.R.val[i]['cmp'] == cmp_) and self.oko(i)]
        if pool and self.rng.random() < 0.6:
            return self.rng.choice(pool[-6:])
        for _ in range(5):
            d = self.dop(m, cmp_)
            if self.c(d) <= cost:
                break
        return d

    def oko(self, i):
        v = self.R.val[i]
        return sum(len(c) for c in v['t'].values()) <= 12 and all(
            getattr(x, 'o', 3) >= 0 for c in v['t'].values() for x in c.values())

    def order(self, i):
        v = self.R.val.get(i)
        return max([sum(a) for a in v['t']] or [0]) if v else 9

    def const_fld(self, m):
        r = self.rng
        return self.simple(m)

    def dop_op(self, m):
        r = self.rng
        if self.cost is None:
            self.cost = {}
        k = r.choice(['make', 'make', 'bin', 'bin', 'neg', 'scale', 'mv', 'mv', 'addmv', 'adds', 'mul', 'mul', 'apply', 'apply',
                      'apply', 'apply', 'applys', 're', 're', 're', 'eq', 'pd', 's_make', 's_bin', 's_un', 's_expr', 's_fld',
                      's_dop', 's_expr'])
        flat = self.info(m).flat

        def d1(cost=2):
            return self.pickd(m, cost=cost)
        if k == 'make':
            return self.dop(m)
        if k == 'bin':
            a = d1()
            v = self.R.val.get(a)
            b = self.pickd(m, cmp_=v['cmp']) if v else a
            return self.mark(self.emit('o_bin', [a, b], {'m': r.choice('+-')}), max(self.c(a), self.c(b)))
        if k == 'neg':
            a = d1()
            return self.mark(self.emit('o_neg', [a]), self.c(a))
        if k == 'scale':
            a = d1()
            v = self.R.val.get(a)
            how = ('r' if v['cmp'] else 'l') if v else 'l'
            return self.mark(self.emit('o_scale', [a], {'e': self.fun(m), 'how': 'l' if how == 'l' else 'r'}), self.c(a) + 0.2)
        if k == 'mv':
            a, f = d1(), self.simple(m)
            return self.mark(self.emit('o_mv', [a, f], {'m': r.choice(['*', '*', '^', '|', '<', '>'])}), self.c(a) + 0.3)
        if k == 'addmv':
            a, f = d1(), self.simple(m)
            return self.mark(self.emit('o_addmv', [a, f], {'m': r.choice(['+', 'r+', '-', 'r-'])}), self.c(a))
        if k == 'adds':
            a = d1()
            return self.mark(self.emit('o_adds', [a], {'m': r.choice(['+', 'r+', '-', 'r-']), 'e': self.fun(m)}), self.c(a))
        if k == 'mul':
            a = d1(1.6)
            v = self.R.val.get(a)
            if not v:
                return a
            b = self.pickd(m, cmp_=v['cmp'], cost=1.6)
            if self.order(a) + self.order(b) > (3 if flat else 1):
                return self.dop(m)
            return self.mark(self.emit('o_mul', [a, b], {'m': r.choice(['*', '*', '*', '^', '|', '<', '>'])}),
                             self.c(a) + self.c(b))
        if k in ('apply', 'applys'):
            a = d1(3)
            if not flat and self.order(a) > 1:
                return self.dop(m, None)
            if k == 'applys':
                return self.mark(self.emit('o_applys', [a], {'e': self.fun(m)}), 2 + self.c(a))
            f = self.simple(m)
            return self.mark(self.emit('o_apply', [a, f], {'m': r.choice(['*', '*', '*', '^', '|', '<', '>'])}),
                             self.c(a) + self.c(f) + 1)
        if k == 're':
            a = d1(1.2)
            return self.mark(self.emit('o_re', [a], {'k': r.choice(REWRITES)}), self.c(a))
        if k == 'eq':
            a, b = d1(1.2), d1(1.2)
            if r.random() < 0.5:
                v, w = self.R.val.get(a), self.R.val.get(b)
                if v and w and v['cmp'] == w['cmp']:
                    return self.emit('o_eq', [a, b], {'same': True})
            return self.emit('o_eq', [a, b], {})
        if k == 'pd':
            a = d1(1.6)
            v = self.R.val.get(a)
            if not v or v['cmp']:
                return self.dop(m, False)
            if self.order(a) > (2 if flat else 0):
                return self.dop(m)
            return self.mark(self.emit('o_pd', [a], {'k': r.randrange(self.info(m).n), 'how': r.random() < 0.5}), self.c(a) + 1)
        return self.sop_op(m, k)

    def sop(self, m):
        r = self.rng
        how = r.choice(['terms', 'terms', 'terms', 'lists', 'rmul', 'pdop', 'sym'])
        ts = [[self.alpha(m), self.fun(m)] for _ in range(r.choice([1, 2, 2, 3]))]
        if how == 'sym':
            ts = [[self.alpha(m, 1), 1]]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            al, e = r.choice(ts)
            ts.insert(r.randint(0, len(ts)), [al, copy.deepcopy(e) if r.random() < 0.2 else ['*', -1, copy.deepcopy(e)]])
        if how == 'sym':
            ts = ts[:1]
        if how == 'pdop':
            ts = ts[:1]
        return self.emit('s_make', [m], {'t': ts, 'how': how})

    def picks(self, m, maxo=3):
        pool = [i for i in self.sops[m] if self.so(i) <= maxo]
        if pool and self.rng.random() < 0.6:
            return self.rng.choice(pool[-6:])
        for _ in range(8):
            i = self.sop(m)
            if self.so(i) <= maxo:
                break
        return i

    def so(self, i):
        v = self.R.val.get(i)
        return max([sum(a) for a in v] or [0]) if v is not None and len(v) < 7 else 9

    def sop_op(self, m, k):
        r = self.rng
        flat = self.info(m).flat
        if k == 's_make':
            return self.sop(m)
        if k == 's_bin':
            a, b = self.picks(m, 2), self.picks(m, 2)
            h = r.choice('+-*') if r.random() < 0.8 else 'call'
            if h in ('*', 'call') and self.so(a) + self.so(b) > 3:
                h = '+'
            return self.emit('s_bin', [a, b], {'m': h})
        if k == 's_un':
            kk = r.choice(['neg', 'scale', '+s', 's+', '-s', 's-', 'simplify', 'TSimplify', 'consolidate', 'print', 'eq'])
            return self.emit('s_un', [self.picks(m)], {'k': kk, 'e': self.fun(m)})
        if k == 's_expr':
            return self.emit('s_expr', [self.picks(m)], {'e': self.fun(m), 'how': r.random() < 0.5})
        if k == 's_fld':
            a = self.picks(m, 2 if flat else 1)
            if not flat and self.so(a) > 1:
                return self.sop(m)
            f = self.simple(m)
            return self.mark(self.emit('s_fld', [a, f], {'how': r.random() < 0.5}), self.c(f) + 2)
        a = self.picks(m, 1)
        d = self.pickd(m, cmp_=False, cost=1.6)
        if self.so(a) + self.order(d) > (3 if flat else 1):
            return self.dop(m)
        return self.mark(self.emit('s_dop', [a, d], {'how': r.random() < 0.5}), self.c(d) + 1)


def session(rng, cfg):
    g = CalcGen(rng, cfg)
    g.cost = {}
    names = cfg.get('patches')
    for _ in range(cfg.get('mans', 1)):
        m = g.new_man(rng.choice(names) if names else None)
        if rng.random() < cfg.get('subs', 0.3):
            g.new_sub(m)
    if not g.mans:
        g.new_man('polar')
    for _ in range(cfg['length']):
        g.client = rng.randrange(cfg.get('clients', 1))
        m = rng.choice(g.mans)
        x = rng.random()
        if x < cfg.get('noise', 0.1):
            g.noise(m)
        elif x < cfg.get('noise', 0.1) + cfg.get('newman', 0.03) and len(g.mans) < 4:
            if rng.random() < 0.5:
                g.new_sub(m)
            else:
                g.new_man(rng.choice(names) if names else None)
        elif rng.random() < cfg.get('dops', 0.0):
            g.dop_op(m)
        else:
            g.fld_op(m)
    return g
