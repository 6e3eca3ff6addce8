"""Sessions: straight-line programs of galgebra operations, interpreted twice -
once against the real library (Lib) and once against the reference model (Ref).

A plan step is  {"id": k, "op": name, "a": [ids], "p": {params}, "c": client}.
Steps whose arguments are missing (removed by the minimiser, or failed earlier) are skipped.
"""
import zlib
from fractions import Fraction

import mpmath
import sympy
from mpmath import mpf

from . import refmodel
from .refmodel import Clifford, Undefined, num, close, mv_close, mv_str

# ------------------------------------------------------------------ numeric point
_PRIMES = (2, 3, 5, 7)


def symval(name):
    h = zlib.crc32(name.encode())
    return Fraction(2 + h % 11, _PRIMES[(h >> 8) % 4]) + Fraction((h >> 12) % 7, 11)


def atom_name(s):
    if isinstance(s, sympy.Symbol):
        return s.name
    return type(s).__name__ + '(' + ','.join(getattr(a, 'name', str(a)) for a in s.args) + ')'


_SUBS = {}


def _commuting_atoms(e):
    return [s for s in e.atoms(sympy.Symbol, sympy.core.expr.AtomicExpr)
            if s.is_commutative and not s.is_number]


def at_point(e):
    """substitute the fixed rational point for every commuting symbol (undefined functions too)"""
    m = {}
    for s in _commuting_atoms(e):
        v = _SUBS.get(s)
        if v is None:
            f = symval(atom_name(s))
            v = _SUBS[s] = sympy.Rational(f.numerator, f.denominator)
        m[s] = v
    return e.xreplace(m) if m else e


def concrete_functions(e):
    """replace undefined functions f(x, y) by fixed polynomials of their arguments"""
    fs = e.atoms(sympy.core.function.AppliedUndef)
    if not fs:
        return e

    def poly(f):
        r = sympy.Rational(0)
        for k, a in enumerate(f.args):
            v = symval('%s/%d' % (f.func.__name__, k))
            r += sympy.Rational(v.numerator, v.denominator) * a * a + a * f.args[0] / (k + 2)
        return r + 1
    for name in sorted({f.func.__name__ for f in fs}):
        funcs = {f.func for f in fs if f.func.__name__ == name}
        for fn in funcs:
            e = e.replace(fn, lambda *args, fn=fn: poly(fn(*args)))
    return e.doit()


class NotNumber(Exception):
    pass


def number(e):
    """commuting sympy expression (or python number) -> mp number at the point"""
    if isinstance(e, (int, float, Fraction)):
        return num(e) if not isinstance(e, float) else mpf(e)
    e = sympy.sympify(e)
    if e.is_Rational:
        return mpf(int(e.p)) / int(e.q)
    e = concrete_functions(e)
    e = at_point(e)
    if e.is_Rational:
        return mpf(int(e.p)) / int(e.q)
    v = sympy.N(e, 50)
    if isinstance(v, sympy.Float) or v.is_number:
        try:
            v = v._to_mpmath(170)
        except Exception:
            v = mpmath.mpmathify(complex(v))
        if isinstance(v, mpmath.mpc) and abs(v.imag) < mpf(10) ** -30 * (1 + abs(v.real)):
            v = v.real
        return +v
    raise NotNumber(str(e)[:200])


class BadValue(Exception):
    """A library value is malformed (not a linear combination of this algebra's blades)."""


def extract_obj(obj, ga, gram=None):
    """multivector sympy expression -> {mask: mp number} in blade coordinates"""
    obj = sympy.sympify(obj)
    obj = at_point(concrete_functions(obj))
    r = {}
    cl = None
    todo = [(mpf(1), sympy.expand(obj))]
    while todo:
        coef, e = todo.pop()
        if e == 0:
            continue
        if isinstance(e, sympy.Add):         # xreplace can leave nested sums behind
            todo.extend((coef, x) for x in e.args)
            continue
        c, nc = e.args_cnc(split_1=False)
        if c:
            coef = coef * number(sympy.Mul(*c))
        if len(nc) == 0:
            r[0] = r.get(0, 0) + coef
            continue
        if len(nc) > 1:
            raise BadValue('product of non-commuting symbols %s' % (nc,))
        sym = nc[0]
        if isinstance(sym, (sympy.Add, sympy.Mul)):
            todo.append((coef, sym))
            continue
        idx = ga.indexes_to_blades_dict.inverse.get(sym)
        if idx is not None:
            m = sum(1 << i for i in idx)
            r[m] = r.get(m, 0) + coef
            continue
        idx = None if ga.is_ortho else ga.indexes_to_bases_dict.inverse.get(sym)
        if idx is None:
            raise BadValue('%r is not a blade of this algebra' % (sym,))
        if cl is None:
            cl = Clifford(gram)
        b = cl.scalar(1)
        for i in idx:
            b = cl.gp(b, {1 << i: mpf(1)})
        for m, v in b.items():
            r[m] = r.get(m, 0) + v * coef
    return {k: v for k, v in r.items() if abs(v) > mpf(10) ** -34}


# ------------------------------------------------------------------ registry
OPS = {}


class Op:
    def __init__(self, name, argt, rett, lib, ref, tags, raises):
        self.name, self.argt, self.rett = name, argt, rett
        self.lib, self.ref, self.tags, self.raises = lib, ref, frozenset(tags), raises


def op(name, argt, rett, lib, ref=None, tags=('alg',), raises=False):
    assert name not in OPS, name
    OPS[name] = Op(name, argt.split(), rett, lib, ref, tags, raises)


class AlgInfo:
    """static facts about an algebra spec, shared by generator and reference"""
    def __init__(self, spec):
        self.spec = spec
        self.gram = gram_of(spec)
        self.n = len(self.gram)
        self.cl = Clifford(self.gram)
        self.numeric = all(s is None for row in spec_symbols(spec) for s in row)
        self.det = self.cl.det_g()
        self.degenerate = abs(self.det) < mpf(10) ** -15
        self.ortho = all(self.gram[i][j] == 0 for i in range(self.n) for j in range(self.n) if i != j)
        self.isq = spec.get('Isq', '-')

    def I(self):
        e2 = self.cl.E_sq()
        if self.numeric:
            if e2 == 0:
                raise Undefined('degenerate I')
            return self.cl.scale(self.cl.E(), 1 / mpmath.sqrt(abs(e2)))
        # I**2 not a number: the sign is the caller's declaration
        s = mpmath.sqrt(e2 if self.isq == '+' else -e2)
        return self.cl.scale(self.cl.E(), 1 / s)

    def I_inv(self):
        e2 = self.cl.E_sq()
        if self.numeric:
            return self.I() if e2 > 0 else self.cl.scale(self.I(), -1)
        return self.I() if self.isq == '+' else self.cl.scale(self.I(), -1)

    def dual(self, a, mode):
        I = self.I_inv() if 'Iinv' in mode else self.I()
        r = self.cl.gp(I, a) if mode[0] in '+-' else self.cl.gp(a, I)
        return self.cl.scale(r, -1 if '-' in mode else 1)


def spec_symbols(spec):
    """matrix of names for symbolic entries ('' names), None where numeric"""
    n = spec['n']
    names = basis_names(spec)
    out = [[None] * n for _ in range(n)]
    if spec['kind'] == 'sym':
        for i in range(n):
            for j in range(n):
                if spec['g'][i][j] == '#':
                    a, b = names[min(i, j)], names[max(i, j)]
                    out[i][j] = ('**', a) if i == j else ('.', a, b)
    return out


def basis_names(spec):
    root = spec.get('root', 'e')
    start = spec.get('start', 1)
    return ['%s_%d' % (root, start + i) for i in range(spec['n'])]


def gram_of(spec):
    n = spec['n']
    k = spec['kind']
    if k == 'diag':
        return [[num(spec['g'][i]) if i == j else mpf(0) for j in range(n)] for i in range(n)]
    if k == 'cl':
        d = [1] * spec['p'] + [-1] * spec['q'] + [0] * spec['r']
        return [[mpf(d[i]) if i == j else mpf(0) for j in range(n)] for i in range(n)]
    if k == 'mat':
        return [[num(x) for x in row] for row in spec['g']]
    if k == 'sym':
        # entries: number or '#', a metric symbol
        out = []
        names = basis_names(spec)
        for i in range(n):
            row = []
            for j in range(n):
                x = spec['g'][i][j]
                if x == '#':
                    a, b = names[min(i, j)], names[max(i, j)]
                    row.append(num(symval('DotProductSymbol(%s,%s)' % (a, b))))
                else:
                    row.append(num(x))
            out.append(row)
        return out
    raise ValueError(k)


MATRICES = {'matrix': 'Matrix', 'imatrix': 'ImmutableMatrix', 'smatrix': 'SparseMatrix'}


def build_algebra(spec, inp=lambda x: x):
    """create the real algebra of a spec through the library's public constructors"""
    from galgebra.ga import Ga
    k = spec['kind']
    n = spec['n']
    start = spec.get('start', 1)
    basis = spec.get('root', 'e') + '*' + '|'.join(str(start + i) for i in range(n))
    if n == 1:
        basis = '%s_%d,' % (spec.get('root', 'e'), start)
    kw = {}
    if spec.get('coords'):
        kw['coords'] = inp((list if spec.get('coordlist') else tuple)(
            sympy.symbols(x, real=True) for x in spec['coords'].split()))
    if spec.get('debug'):
        kw['debug'] = True
    if spec.get('nowedge'):
        kw['wedge'] = False
    if 'Isq' in spec:
        kw['Isq'] = spec['Isq']
    if k == 'cl':
        from galgebra.interop import Cl, kingdon
        f = Cl if spec['flavor'] == 'core' else kingdon.Cl
        return f(spec['p'], spec['q'], spec['r'], root=spec.get('root', 'e'), **kw)[0]
    form = spec.get('form', 'list')
    if k == 'diag':
        if form == 'str':
            g = ','.join(' '.join(str(spec['g'][i]) if i == j else '0' for j in range(n)) for i in range(n))
        elif form in MATRICES:
            g = inp(getattr(sympy, MATRICES[form])(sympy.diag(*spec['g'])))
        else:
            g = inp(list(spec['g']))
    elif k == 'mat':
        if form == 'str':
            g = ','.join(' '.join(str(x) for x in row) for row in spec['g'])
        elif form in MATRICES:
            g = inp(getattr(sympy, MATRICES[form])(spec['g']))
        else:
            g = inp([list(r) for r in spec['g']])
    elif k == 'sym':
        if spec.get('default'):
            g = None
        else:
            g = ','.join(' '.join(str(x) for x in row) for row in spec['g'])
    if form == 'build':
        return Ga.build(basis, g=g, **kw)[0]
    return Ga(basis, g=g, **kw)


# ------------------------------------------------------------------ interpreters
class Skip(Exception):
    pass


class Raised:
    """the value of a step that raised"""
    def __init__(self, exc):
        self.exc = type(exc).__name__
        self.text = str(exc)[:200]


def _copy_of(x):
    if isinstance(x, (list, tuple)):
        return type(x)(_copy_of(y) for y in x)
    if isinstance(x, dict):
        return {k: _copy_of(y) for k, y in x.items()}
    if isinstance(x, sympy.MatrixBase):
        return x.copy()
    return x


def same_container(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_container(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_container(a[k], b[k]) for k in a)
    if isinstance(a, sympy.MatrixBase):
        return a.shape == b.shape and list(a) == list(b)
    if hasattr(a, 'obj') and hasattr(b, 'obj'):
        return a is b or a.obj == b.obj
    return a is b or a == b


class Lib:
    """runs steps against the real library; remembers values by step id"""
    def __init__(self):
        self.val = {}
        self.spec = {}
        self.alg_of = {}
        self.handed = []        # containers handed to the library: (step id, object, copy)
        self.cur = None

    def inp(self, obj):
        """register a container that is about to be handed to the library"""
        self.handed.append((self.cur, obj, _copy_of(obj)))
        return obj

    def step(self, st):
        self.cur = st['id']
        o = OPS[st['op']]
        args = []
        for a in st['a']:
            v = self.val.get(a, Skip)
            if v is Skip or isinstance(v, Raised):
                raise Skip
            args.append(v)
        alg = None
        for a in st['a']:
            if a in self.alg_of:
                alg = self.alg_of[a]
                break
        if st['op'] == 'alg':
            self.spec[st['id']] = st['p']
            alg = st['id']
        elif o.rett == 'man':
            alg = st['id']
        self.alg_of[st['id']] = alg
        v = o.lib(self, args, st['p'])
        self.val[st['id']] = v
        return v

    def run(self, steps, hook=None):
        """run all; library exceptions become Raised values"""
        for st in steps:
            self.one(st)
            if hook:
                hook(st)

    def one(self, st):
        try:
            self.step(st)
        except Skip:
            self.val.pop(st['id'], None)
        except Exception as e:
            self.val[st['id']] = Raised(e)
        return self.val.get(st['id'], Skip)

    # canonical, picklable, process-independent form of a value
    def canon(self, i, steps_by_id):
        v = self.val.get(i, Skip)
        if v is Skip:
            return None
        st = steps_by_id[i]
        return self.canon_value(v, OPS[st['op']].rett, i)

    def canon_value(self, v, t, i):
        if isinstance(v, Raised):
            return ('raised', v.exc, v.text)
        try:
            return (t, self._canon(v, t, i))
        except BadValue as e:
            return ('bad', str(e))
        except NotNumber as e:
            return ('nonum', str(e))
        except Exception as e:
            return ('bad', 'value cannot be read: %s: %s' % (type(e).__name__, str(e)[:200]))

    def _canon(self, v, t, i):
        if t == 'mv':
            alg = self.alg_of[i]
            return extract_obj(v.obj, v.Ga, gram_of(self.spec[alg]))
        if t == 'mvexpr':
            alg = self.alg_of[i]
            return extract_obj(v, self.val[alg], gram_of(self.spec[alg]))
        if t == 'expr':
            return number(v)
        if t == 'exprs':
            return [number(x) for x in v]
        if t == 'mvs':
            return [self._canon(x, 'mv', i) for x in v]
        if t in ('bool', 'ints', 'str', 'int'):
            return v
        if t == 'grdict':
            return {k: self._canon(x, 'mv', i) for k, x in v.items()}
        if t == 'none':
            return None
        if t == 'alg':
            return None
        if t in CANON:
            return CANON[t](self, v, i)
        raise ValueError(t)


CANON = {}


class Ref:
    """runs steps against the reference; value None = no opinion"""
    def __init__(self):
        self.val = {}
        self.info = {}
        self.alg_of = {}
        self.mode = 'I+'

    def step(self, st):
        o = OPS[st['op']]
        i = st['id']
        alg = None
        for a in st['a']:
            if a in self.alg_of:
                alg = self.alg_of[a]
                break
        if st['op'] == 'alg':
            alg = i
            self.info[i] = AlgInfo(st['p'])
            if st['p']['kind'] == 'cl':
                self.mode = 'I+' if st['p']['flavor'] == 'core' else 'Iinv+'
        if o.rett == 'man':
            self.alg_of[i] = i
            self.val[i] = None
            if all(a in self.info for a in st['a']):
                try:
                    m = self.info[i] = o.mkinfo(self, [self.info[a] for a in st['a']], st['p'])
                    self.val[i] = [[v.value() for v in row] for row in m.gram]
                except Undefined:
                    pass
            return self.val[i]
        self.alg_of[i] = alg
        self.val[i] = None
        if o.ref is None:
            return None
        args = []
        for a in st['a']:
            if a not in self.val:
                return None
            v = self.val[a]
            if v is None and a not in self.info:
                return None
            args.append(self.info[a] if a in self.info else v)
        try:
            self.val[i] = o.ref(self, self.info.get(alg), args, st['p'])
        except Undefined:
            self.val[i] = None
        return self.val[i]


def same(canon, ref_or_canon):
    """compare two canonical values of the same type"""
    (t, a), (u, b) = canon, ref_or_canon
    if t != u:
        return False
    if t in ('mv', 'mvexpr'):
        return mv_close(a, b)
    if t == 'expr':
        return close(a, b)
    if t == 'exprs':
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if t == 'mvs':
        return len(a) == len(b) and all(mv_close(x, y) for x, y in zip(a, b))
    if t == 'grdict':
        ks = set(a) | set(b)
        return all(mv_close(a.get(k, {}), b.get(k, {})) for k in ks)
    if t in SAME:
        return SAME[t](a, b)
    return a == b


SAME = {}


def same_ref(canon, want):
    """library value against reference value; None: the reference does not know this value"""
    try:
        return same(canon, want)
    except Undefined:
        return None


def same_any(c1, c2):
    """compare canonical values from two executions (raised / bad included)"""
    if c1 is None or c2 is None:
        return c1 is c2
    if c1[0] in ('raised', 'bad', 'nonum') or c2[0] in ('raised', 'bad', 'nonum'):
        return c1[0] == c2[0] and (c1[0] != 'raised' or c1[1] == c2[1])
    return same(c1, c2)


def show(c):
    if c is None:
        return 'nothing'
    t = c[0]
    if t in ('mv', 'mvexpr') and isinstance(c[1], dict):
        return mv_str(c[1])
    if t == 'expr':
        return mpmath.nstr(c[1], 15)
    if t == 'exprs':
        return '[' + ', '.join(mpmath.nstr(x, 12) for x in c[1]) + ']'
    if t in ('mvs',):
        return '[' + ', '.join(mv_str(x) for x in c[1]) + ']'
    if t in SHOW:
        return SHOW[t](c[1])
    return repr(c)[:1500]


SHOW = {}


def slice_of(steps, target):
    """backward slice of the step `target`: the steps its value is made from, plus the global
    mode-setting step that governs it"""
    by = {s['id']: s for s in steps}
    need, todo = set(), [target]
    while todo:
        i = todo.pop()
        if i in need or i not in by:
            continue
        need.add(i)
        todo.extend(by[i]['a'])
        if OPS[by[i]['op']].tags & {'reads_mode'} or by[i]['op'] == 'alg':
            # last mode writer before it
            for s in reversed(steps[:steps.index(by[i])]):
                if 'sets_mode' in OPS[s['op']].tags or (s['op'] == 'alg' and s['p']['kind'] == 'cl'):
                    todo.append(s['id'])
                    break
    return [s for s in steps if s['id'] in need]
