"""Seeded generator of sessions.  It runs the reference model while generating, so it can place an
operation only where the operation is defined."""
from mpmath import mpf

from . import world, ops_alg
from .ops_alg import all_masks, masks_of_grade, FAILING
from .refmodel import popcount, close
from .world import OPS, Ref

SYMS = ['a', 'b', 'c']


def gen_spec(rng, small=False, allow_debug=True, kinds=None):
    k = rng.choice(kinds or ['diag', 'diag', 'diag', 'mat', 'mat', 'sym', 'cl', 'degen', 'null'])
    spec = {'root': rng.choice(['e', 'e', 'e', 'f', 'gamma'])}
    if k == 'degen':
        n = rng.choice([2, 3])
        g = [rng.choice([1, -1]) for _ in range(n)]
        g[rng.randrange(n)] = 0
        spec.update(kind='diag', n=n, g=g, form=rng.choice(['list', 'matrix', 'imatrix']))
    elif k == 'diag':
        n = rng.choice([1, 2, 2, 3, 3, 3, 4] if not small else [2, 3])
        g = [rng.choice([1, 1, 1, -1, -1, 2, 3]) for _ in range(n)]
        if rng.random() < 0.4:
            g = [1] * n
        spec.update(kind='diag', n=n, g=g, form=rng.choice(['list', 'list', 'str', 'matrix', 'imatrix', 'smatrix', 'build']) if n > 1
                    else rng.choice(['list', 'matrix']))
    elif k == 'mat':
        n = rng.choice([2, 2, 3] if not small else [2, 2, 2, 3])
        while True:
            g = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    v = rng.choice([1, 2, 3, -1]) if i == j else rng.choice([0, 1, 1, -1, 2])
                    g[i][j] = g[j][i] = v
            if any(g[i][j] for i in range(n) for j in range(i)):
                from .refmodel import Clifford
                if abs(Clifford(g).det_g()) > 0.5:
                    break
        spec.update(kind='mat', n=n, g=g, form=rng.choice(['list', 'str', 'matrix', 'imatrix', 'smatrix', 'build']))
    elif k == 'null':
        n = 2
        spec.update(kind='mat', n=n, g=[[0, 1], [1, 0]], form=rng.choice(['str', 'matrix', 'imatrix']))
    elif k == 'sym':
        t = rng.choice(['diag2', 'diag3', 'full2', 'full2', 'off2', 'unit2', 'off3'] if not small else
                       ['diag2', 'full2', 'off2', 'unit2'])
        g = {'diag2': [['#', 0], [0, '#']], 'diag3': [['#', 0, 0], [0, '#', 0], [0, 0, 1]],
             'full2': [['#', '#'], ['#', '#']], 'off2': [[0, '#'], ['#', 0]],
             'unit2': [[1, '#'], ['#', 1]], 'off3': [[1, '#', 0], ['#', 1, 0], [0, 0, -1]]}[t]
        spec.update(kind='sym', n=len(g), g=g)
        if t == 'full2' and rng.random() < 0.5:
            spec['default'] = True
        spec['Isq'] = rng.choice(['-', '+'])
    elif k == 'cl':
        while True:
            p, q, r = rng.choice([0, 1, 2, 3]), rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 0, 1])
            if 1 <= p + q + r <= (3 if small else 4):
                break
        flavor = rng.choice(['core', 'kingdon'])
        spec.update(kind='cl', p=p, q=q, r=r, n=p + q + r, flavor=flavor, start=1 if flavor == 'core' else 0)
    n = spec['n']
    if allow_debug and n <= 3 and rng.random() < 0.08:
        spec['debug'] = True
    if n > 1 and rng.random() < 0.15:
        spec['nowedge'] = True
    if spec['kind'] != 'cl' and rng.random() < 0.15 and spec['kind'] != 'sym':
        spec['coords'] = ' '.join('x%d' % i for i in range(1, n + 1))
    return spec


class Facts:
    """what the generator knows about a value"""
    __slots__ = ('t', 'alg', 'deg', 'poly', 'num', 'base', 'client', 'blades', 'named')

    def __init__(self, t, alg, deg=0, poly=True, num=True, base=False, client=0):
        self.t, self.alg, self.deg, self.poly, self.num, self.base, self.client = t, alg, deg, poly, num, base, client


class Gen:
    def __init__(self, rng, cfg):
        self.rng = rng
        self.cfg = cfg
        self.steps = []
        self.facts = {}
        self.ref = Ref()
        self.next = 0
        self.client = 0
        self.live = {}            # alg id -> list of mv ids usable
        self.algs = []

    # ---- emission
    def emit(self, opname, args, p=None, **facts):
        i = self.next
        self.next += 1
        st = {'id': i, 'op': opname, 'a': list(args), 'p': p or {}, 'c': self.client}
        self.steps.append(st)
        self.ref.step(st)
        o = OPS[opname]
        if o.rett in ('mv', 'alg', 'gram'):
            alg = i if opname == 'alg' else next(
                (self.facts[a].alg for a in args if a in self.facts), None)
            base = [self.facts[a] for a in args if a in self.facts and self.facts[a].t == 'mv']
            f = Facts('alg' if opname == 'alg' else o.rett, alg,
                      deg=facts.get('deg', sum(x.deg for x in base)),
                      poly=facts.get('poly', all(x.poly for x in base)),
                      num=facts.get('num', all(x.num for x in base)),
                      base=facts.get('base', False), client=self.client)
            self.facts[i] = f
            if f.t == 'mv':
                self.live[alg].append(i)
            elif f.t == 'alg':
                self.algs.append(i)
                self.live[i] = []
        return i

    def v(self, i):
        return self.ref.val.get(i)

    def size(self, i):
        v = self.v(i)
        return len(v) if v is not None else 1 << self.ref.info[self.facts[i].alg].n

    # ---- operands
    def new_alg(self, spec=None):
        while spec is None or (self.cfg.get('threads') and self.client >= 0 and spec['kind'] == 'cl'):
            # (an interop Cl() call sets the dual mode: not while other threads compute)
            spec = gen_spec(self.rng, small=self.cfg.get('small', False),
                            allow_debug=self.cfg.get('debug', True), kinds=self.cfg.get('kinds'))
        return self.emit('alg', [], spec)

    def scalar(self, sym=None):
        r = self.rng
        if sym is None:
            sym = r.random() < self.cfg.get('symbolic', 0.35)
        if sym:
            return r.choice(SYMS + ['2*a', '3*b'])
        return r.choice([1, 2, 3, -1, -2, 5, '1/2', '2/3'])

    def operand(self, alg):
        r = self.rng
        n = self.ref.info[alg].n
        k = r.choice(['mvsum', 'mvsum', 'mvsum', 'mvgrade', 'mvgrade', 'mvname', 'basis', 'basis', 'blade', 'blade',
                      'E', 'Ips', 'mvscalar', 'recip', 'zero'])
        if k == 'mvsum':
            ms = all_masks(n)
            cnt = min(len(ms), r.choice([1, 2, 2, 3, 4]))
            ms = r.sample(ms, cnt)
            c = [[m, self.scalar()] for m in ms]
            sym = any(isinstance(x[1], str) and '/' not in x[1] for x in c)
            return self.emit('mvsum', [alg], {'c': c, 'how': r.choice(['blades', 'flat', 'sym'])},
                             deg=1 if sym else 0, num=not sym)
        if k == 'mvgrade':
            g = r.randint(0 if n == 1 else 1, n)
            cnt = r.randint(1, len(masks_of_grade(n, g)))
            if g == 0:
                return self.operand(alg)
            c = [self.scalar() for _ in range(cnt)]
            sym = any(isinstance(x, str) and '/' not in x for x in c)
            return self.emit('mvgrade', [alg], {'r': g, 'c': c, 'how': r.choice(['int', 'name'])},
                             deg=1 if sym else 0, num=not sym)
        if k == 'mvname':
            kind = r.choice(['vector', 'vector', 'bivector', 'pseudo', 'even', 'spinor', 'odd', 'mv', 'grade', 'scalar'])
            if kind == 'bivector' and n < 2:
                kind = 'vector'
            if n > 3 and kind in ('mv', 'even', 'odd', 'spinor'):
                kind = 'vector'
            p = {'name': r.choice(['A', 'B', 'V']), 'kind': kind}
            if kind == 'grade':
                p['r'] = r.randint(1, n)
            return self.emit('mvname', [alg], p, deg=1, num=False)
        if k == 'basis':
            return self.emit('basis', [alg], {'i': r.randrange(n)})
        if k == 'blade':
            return self.emit('blade', [alg], {'k': r.randrange(1 << n)})
        if k == 'mvscalar':
            s = self.scalar()
            sym = isinstance(s, str) and '/' not in s
            return self.emit('mvscalar', [alg], {'c': s, 'how': r.choice(['expr', 'scalar'])},
                             deg=1 if sym else 0, num=not sym)
        info = self.ref.info[alg]
        if k in ('recip', 'Ips') and (info.degenerate or not info.numeric):
            return self.emit('basis', [alg], {'i': r.randrange(n)})
        if k == 'recip':
            if n == 1 and not info.ortho:
                return self.emit('basis', [alg], {'i': 0})
            return self.emit('recip', [alg], {'i': r.randrange(n), 'norm': r.random() < 0.6})
        if k == 'zero':
            if r.random() < 0.7:
                return self.operand(alg)
            return self.emit('zero', [alg], {'how': r.choice([0, 1])})
        return self.emit(k, [alg])

    def mine(self, i):
        """may the current client use value i (threads only see the shared prefix and their own values)"""
        return self.cfg.get('share', True) or self.facts[i].client in (self.client, -1)

    def pick(self, alg, maxdeg=3, pred=None):
        """an existing operand, or a new one"""
        r = self.rng
        pool = [i for i in self.live[alg] if self.facts[i].deg <= maxdeg and not self.facts[i].base
                and self.mine(i)
                and (pred is None or pred(i))]
        if pool and r.random() < 0.85:
            # prefer recent values, but not only
            return r.choice(pool[-8:]) if r.random() < 0.6 else r.choice(pool)
        if pred is None:
            for _ in range(5):
                i = self.operand(alg)
                if self.facts[i].deg <= maxdeg:
                    return i
            return self.emit('basis', [alg], {'i': 0})
        return r.choice(pool) if pool else None

    def vector(self, alg, nonnull=True, num=False):
        r = self.rng
        info = self.ref.info[alg]
        for _ in range(10):
            c = [self.scalar(False if num else None) if r.random() < 0.8 else 0 for _ in range(info.n)]
            sym = any(isinstance(x, str) and '/' not in x for x in c)
            v = info.cl.clean({1 << i: ops_alg.scn(x) for i, x in enumerate(c)})
            q = info.cl.qform(v)
            if v and (not nonnull or abs(q) > mpf('1e-6')):
                return self.emit('mvgrade', [alg], {'r': 1, 'c': c}, deg=1 if sym else 0, num=not sym)
        return None

    # ---- one random algebra operation
    def alg_op(self, alg):
        r = self.rng
        info = self.ref.info[alg]
        n = info.n
        k = r.choices(['bin', 'un', 'scal', 'leafbin', 'leaf', 'inverse', 'blade2', 'special', 'rewrite', 'baserep',
                       'dual', 'pow', 'frame', 'gaq', 'pred', 'cross', 'norm', 'aug', 'copy', 'operand'],
                      [22, 9, 7, 4, 6, 5, 4, 3, 4, 4, 5, 2, 1.5, 2, 5, 1, 3, 2, 1, 4])[0]
        return getattr(self, 'g_' + k)(alg, info, n, r)

    def g_operand(self, alg, info, n, r):
        return self.operand(alg)

    def g_bin(self, alg, info, n, r):
        a = self.pick(alg, 3)
        lim = 4 if n <= 2 else 3
        b = self.pick(alg, max(0, lim - self.facts[a].deg))
        o = r.choice(['add', 'sub', 'gp', 'gp', 'gp', 'wedge', 'dot', 'lc', 'rc', 'anti', 'comm', 'com', 'mulstatic'])
        if o not in ('add', 'sub') and self.size(a) * self.size(b) > 70 and not (self.facts[a].num and self.facts[b].num):
            o = 'add'
        p = {'m': r.choice('*^|<>')} if o == 'mulstatic' else {}
        d = max(self.facts[a].deg, self.facts[b].deg) if o in ('add', 'sub') else None
        kw = {'deg': d} if d is not None else {}
        return self.emit(o, [a, b], p, **kw)

    def g_aug(self, alg, info, n, r):
        a = self.pick(alg, 2)
        b = self.pick(alg, 1)
        return self.emit('aug', [a, b], {'m': r.choice(['+=', '-=', '*=', '^=', '|='])})

    def g_copy(self, alg, info, n, r):
        return self.emit('copy', [self.pick(alg)], {'how': r.randrange(4)})

    def g_un(self, alg, info, n, r):
        a = self.pick(alg, 4)
        o = r.choice(['neg', 'rev', 'g_invol', 'ccon', 'even', 'odd', 'grade', 'func'])
        p = {}
        if o in ('rev', 'ccon', 'even', 'odd'):
            p = {'fn': r.random() < 0.3}
        if o == 'rev' and r.random() < 0.3:
            p = {'inv': True}
        if o == 'grade':
            p = {'r': r.randint(0, n), 'how': r.choice(['item', 'fn', 'get', 'm'])}
            if p['how'] == 'item' and p['r'] < 0:
                p['r'] = 0
        return self.emit(o, [a], p)

    def g_scal(self, alg, info, n, r):
        a = self.pick(alg, 3)
        o = r.choice(list(ops_alg._SCAL))
        s = self.scalar()
        if r.random() < 0.15 and o != 'div_s':
            s = 0
        sym = isinstance(s, str) and '/' not in s
        kw = {}
        if sym:
            kw = {'num': False, 'deg': self.facts[a].deg + 1}
            if o == 'div_s':
                kw['poly'] = False
        return self.emit(o, [a], {'s': s}, **kw)

    def g_leafbin(self, alg, info, n, r):
        a, b = self.pick(alg, 2), self.pick(alg, 2)
        if self.size(a) * self.size(b) > 64:
            return self.g_leaf(alg, info, n, r)
        o = r.choice(['gamul', 'gadot', 'gasp', 'sp', 'sp', 'equal', 'equal_self'])
        if o == 'gamul':
            # Ga.Mul's geometric product takes blade coordinates
            return self.emit(o, [a, b], {'m': r.choice('*^|<>')})
        if o == 'gadot':
            return self.emit(o, [a, b], {'m': r.choice('|<>')})
        if o == 'sp':
            return self.emit(o, [a, b], {'sw': r.choice(['', 'rev']), 'fn': r.random() < 0.4})
        if o in ('equal', 'equal_self'):
            if not (self.facts[a].poly and self.facts[b].poly):
                return None
            return self.emit(o, [a, b] if o == 'equal' else [a])
        return self.emit(o, [a, b])

    def g_leaf(self, alg, info, n, r):
        a = self.pick(alg, 3)
        o = r.choice(['scalar', 'blade_coefs', 'blade_coefs_sel', 'get_coefs', 'projbases', 'grade_dec', 'components',
                      'split', 'nonscalar'])
        p = {}
        if o == 'scalar':
            p = {'fn': r.random() < 0.5}
        if o == 'get_coefs':
            p = {'r': r.randint(0, n)}
        if o in ('blade_coefs_sel', 'projbases'):
            p = {'k': sorted(r.sample(range(1 << n), min(1 << n, r.choice([1, 2, 3]))))}
            if o == 'blade_coefs_sel':
                # the scalar 1 is not accepted as a basis blade by this call's own check
                p['k'] = [k for k in p['k'] if k] or [1]
        if o == 'grade_dec' and not self.facts[a].poly:
            o, p = 'scalar', {}
        return self.emit(o, [a], p)

    def invertible(self, i):
        f = self.facts[i]
        v = self.v(i)
        if not v:
            return False
        try:
            self.ref.info[f.alg].cl.inv(v)
            return True
        except Exception:
            return False

    def has_simple_inverse(self, i):
        """the library's inv() is documented for scalar self*self or self*rev(self) only"""
        f = self.facts[i]
        v = self.v(i)
        c = self.ref.info[f.alg].cl
        if not v or f.base:
            return False
        for sq in (c.gp(v, v), c.gp(v, c.rev(v))):
            if set(k for k, x in sq.items() if abs(x) > mpf('1e-25')) == {0} and abs(sq[0]) > mpf('1e-9'):
                return True
        return False

    def g_inverse(self, alg, info, n, r):
        o = r.choice(['inv', 'inv', 'shirokov', 'hitzer', 'div', 'rdiv_s', 'powneg'])
        if o in ('shirokov', 'hitzer'):
            cand = [i for i in self.live[alg] if self.mine(i) and self.facts[i].num and info.numeric and not self.facts[i].base
                    and self.invertible(i)]
            if not cand:
                return None
            return self.emit(o, [r.choice(cand)], {'fn': r.random() < 0.3})
        cand = [i for i in self.live[alg] if self.mine(i) and self.facts[i].poly and self.facts[i].deg <= 1 and not self.facts[i].base
                and self.has_simple_inverse(i) and (self.facts[i].num or self.size(i) <= 3)]
        if not cand:
            v = self.vector(alg, num=r.random() < 0.6)
            if v is None or not self.has_simple_inverse(v):
                return None
            cand = [v]
        b = r.choice(cand)
        np = {'poly': self.facts[b].num and info.numeric, 'deg': self.facts[b].deg * 2}
        if o == 'inv':
            return self.emit('inv', [b], {'fn': r.random() < 0.3}, **np)
        if o == 'rdiv_s':
            return self.emit('rdiv_s', [b], {'s': r.choice([1, 2, '1/2'])}, **np)
        if o == 'powneg':
            return self.emit('powneg', [b], {'n': 1}, **np)
        a = self.pick(alg, 1)
        np['deg'] += self.facts[a].deg
        np['poly'] = np['poly'] and self.facts[a].poly
        return self.emit('div', [a, b], **np)

    def blade_operand(self, alg, info, n, r, num=True):
        """a nonnull blade made as an outer product of vectors"""
        g = r.randint(1, n)
        vs = [self.vector(alg, nonnull=False, num=num) for _ in range(g)]
        if any(v is None for v in vs):
            return None
        b = vs[0]
        for v in vs[1:]:
            b = self.emit('wedge', [b, v])
        val = self.v(b)
        if not val or abs(info.cl.qform(val)) < mpf('1e-6'):
            return None
        return b

    def g_blade2(self, alg, info, n, r):
        if not info.numeric:
            return None
        b = self.blade_operand(alg, info, n, r)
        if b is None:
            return None
        a = self.pick(alg, 1)
        if not self.facts[a].poly:
            return None
        return self.emit(r.choice(['refl', 'proj']), [a, b], {'fn': r.random() < 0.4})

    def exp_operand(self, alg, info, n, r):
        """a simple multivector with numeric square, and the right hint"""
        if not info.numeric:
            return None
        b = self.blade_operand(alg, info, n, r)
        if b is None:
            return None
        v = self.v(b)
        sq = info.cl.gp(v, v)
        if set(sq) - {0}:
            return None
        s = sq.get(0, mpf(0))
        if abs(s) > 60:
            return None
        return b, '-' if s < 0 else '+'

    def g_special(self, alg, info, n, r):
        x = self.exp_operand(alg, info, n, r)
        if x is None:
            return None
        b, hint = x
        if r.random() < 0.6:
            return self.emit('exp', [b], {'hint': hint, 'fn': r.random() < 0.4}, poly=False, deg=1, num=False)
        a = self.pick(alg, 0)
        return self.emit('rot', [a, b], {'hint': hint, 'fn': r.random() < 0.4}, poly=False, deg=2, num=False)

    def g_rewrite(self, alg, info, n, r):
        a = self.pick(alg, 2)
        o = r.choice(['expand', 'simplify', 'trigsimp', 'collect', 'simplify_modes', 'subs'])
        p = {}
        if o == 'subs':
            p = {'s': r.sample(SYMS, r.choice([1, 2])), 'how': r.choice(['list', 'dict'])}
        elif o in ('simplify', 'trigsimp') and (self.size(a) > 4 or self.facts[a].deg > 1):
            o = 'expand'
        return self.emit(o, [a], p)

    def g_baserep(self, alg, info, n, r):
        a = self.pick(alg, 1)
        if self.size(a) > 4 and n > 2:
            return None
        b = self.emit('base_rep', [a], base=True)
        k = r.random()
        if k < 0.15:
            return self.emit('blade_rep', [b])
        if k < 0.45:
            # every question about the same multivector has the same answer
            o = r.choice(['neg', 'rev', 'g_invol', 'ccon', 'even', 'odd', 'grade', 'scalar', 'blade_coefs', 'components',
                          'mul_s', 'rmul_s', 'add_s', 'rsub_s', 'lc_s', 'expand', 'equal_self', 'gagrades', 'copy', 'pow'])
            p = {'grade': {'r': r.randint(0, n), 'how': 'item'}, 'scalar': {'fn': False}, 'pow': {'n': r.choice([0, 1, 2])}}.get(o, {})
            if o.endswith('_s'):
                p = {'s': r.choice([2, -1, '1/2'])}
            if o in ('equal_self', 'gagrades') and not self.facts[a].poly:
                return None
            stay = o in ('neg', 'mul_s', 'rmul_s', 'add_s', 'rsub_s', 'expand', 'copy') or (o == 'pow' and p['n'] == 1)
            x = self.emit(o, [b], p, base=stay)
            if stay and r.random() < 0.5:
                return self.emit('blade_rep', [x])
            return x
        c = self.pick(alg, 1)
        if self.size(c) * self.size(a) > 16:
            return self.emit('blade_rep', [b])
        if k < 0.4:
            c2 = self.emit('base_rep', [c], base=True)
            # a product of two base representations stays in it
            x = self.emit('gp', [b, c2], base=True)
            return self.emit('blade_rep', [x])
        o = r.choice(['add', 'sub', 'gp', 'gp', 'wedge', 'dot', 'lc', 'rc'])
        return self.emit(o, [b, c] if r.random() < 0.5 else [c, b])

    def g_dual(self, alg, info, n, r):
        if info.degenerate:
            return None
        a = self.pick(alg, 2)
        o = r.choice(['dual', 'dual', 'undual', 'dual_undual'])
        p = {'o': r.randrange(2)} if o == 'dual_undual' else {'fn': r.random() < 0.3}
        return self.emit(o, [a], p, poly=self.facts[a].poly and info.numeric)

    def g_pow(self, alg, info, n, r):
        a = self.pick(alg, 1)
        k = r.choice([0, 1, 2, 3])
        if self.size(a) > 4:
            k = min(k, 2)
        return self.emit('pow', [a], {'n': k}, deg=self.facts[a].deg * k)

    def g_frame(self, alg, info, n, r):
        if n < 2 or not info.numeric or info.degenerate:
            return None
        a, b = self.vector(alg, num=True), self.vector(alg, num=True)
        if a is None or b is None:
            return None
        return self.emit('recframe', [a, b], {'mode': r.choice(['norm', 'append'])})

    def g_gaq(self, alg, info, n, r):
        o = r.choice(['e_sq', 'g_inv', 'detg', 'nblades'])
        if o == 'g_inv' and info.degenerate:
            o = 'detg'
        return self.emit(o, [alg])

    def g_pred(self, alg, info, n, r):
        o = r.choice(['is_scalar', 'is_vector', 'is_zero', 'gagrades', 'is_base', 'is_versor', 'is_blade', 'is_blade',
                      'pure_grade'])
        if o in ('is_versor', 'is_blade', 'pure_grade'):
            if not info.numeric or (n > 3 and r.random() < 0.7):
                return None
            a = self.pick(alg, 0, pred=lambda i: self.facts[i].num and self.facts[i].poly)
            if a is None:
                return None
            v = self.v(a)
            if o == 'is_blade' and (not v or (n > 3 and max(popcount(k) for k in v) > 2)):
                return None
            return self.emit(o, [a])
        a = self.pick(alg, 2, pred=lambda i: self.facts[i].poly)
        if a is None:
            return None
        if o == 'is_base':
            f = self.facts[a]
            if not f.num:
                return None
        return self.emit(o, [a])

    def g_cross(self, alg, info, n, r):
        if n != 3 or not info.numeric or info.degenerate:
            return None
        a, b = self.vector(alg, False, num=True), self.vector(alg, False, num=True)
        if a is None or b is None:
            return None
        return self.emit('cross', [a, b])

    def g_norm(self, alg, info, n, r):
        if not info.numeric:
            return None
        a = self.pick(alg, 0, pred=lambda i: self.facts[i].num and self.facts[i].poly)
        if a is None:
            return None
        o = r.choice(['qform', 'norm2', 'norm', 'mag2', 'mag'])
        return self.emit(o, [a], {'fn': r.random() < 0.4, 'ab': o == 'norm' and r.random() < 0.2})

    # ---- noise
    def noise(self, alg):
        r = self.rng
        a = self.pick(alg, 2)
        if r.random() < 0.5:
            return self.emit('print', [a], {'k': r.choice(['str', 'repr', 'latex', 'fmt', 'fmt_latex', 'print', 'html']),
                                            'f': r.choice([1, 2, 3])})
        return self.emit('fail', [a], {'k': r.choice(FAILING)})


def session(rng, cfg):
    """interleave cfg['clients'] clients over shared algebras; returns the Gen"""
    g = Gen(rng, cfg)
    g.client = -1
    for _ in range(cfg['algs']):
        g.new_alg()
    dup = cfg.get('dup')
    if dup and g.algs:
        # a second algebra over the same basis names but another metric: same blade symbols
        s = dict(g.steps[0]['p'])
        s.pop('debug', None)
        if s['kind'] == 'diag':
            s['g'] = [-x if rng.random() < 0.5 else x * 2 for x in s['g']]
            g.new_alg(s)
        elif s['kind'] == 'mat':
            s = {'kind': 'diag', 'n': s['n'], 'g': [rng.choice([1, -1, 2]) for _ in range(s['n'])],
                 'root': s['root'], 'form': 'list'}
            g.new_alg(s)
    turns = cfg['length']
    home = {c: rng.choice(g.algs) for c in range(cfg['clients'])}
    while turns > 0:
        turns -= 1
        g.client = rng.randrange(cfg['clients'])
        alg = home[g.client] if rng.random() < 0.8 else rng.choice(g.algs)
        x = rng.random()
        if x < cfg.get('modes', 0.05):
            if rng.random() < 0.8:
                from .refmodel import Clifford
                g.emit('dual_mode', [], {'m': rng.choice(Clifford.DUAL_MODES)})
            else:
                g.emit('simp_profile', [], {'m': rng.choice([['expand'], ['simplify'], ['factor'], ['expand', 'factor']])})
        elif x < cfg.get('modes', 0.05) + cfg.get('noise', 0.1):
            g.noise(alg)
        elif x < cfg.get('modes', 0.05) + cfg.get('noise', 0.1) + cfg.get('newalg', 0.03) and len(g.algs) < 4:
            g.new_alg()
            if rng.random() < 0.5:
                home[g.client] = g.algs[-1]
        else:
            g.alg_op(alg)
    return g
