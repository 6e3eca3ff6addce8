"""Algebraic operations: constructors, products, involutions, inverses, duals, norms, predicates."""
import mpmath
import sympy
from mpmath import mpf

from . import world
from .refmodel import Undefined, num, popcount
from .world import OPS, op, build_algebra, number, symval, gram_of, CANON, SAME


def sc(x):
    """scalar parameter of a plan: int, 'p/q' or symbol name"""
    if isinstance(x, int):
        return x
    if isinstance(x, str):
        if '/' in x:
            p, q = x.split('/')
            return sympy.Rational(int(p), int(q))
        if '*' in x:
            a, b = x.split('*')
            return sc(a) * sc(b) if not a.lstrip('-').isdigit() else int(a) * sc(b)
        if x.lstrip('-').isdigit():
            return int(x)
        return sympy.Symbol(x, real=True)
    raise ValueError(x)


def scn(x):
    if isinstance(x, int):
        return mpf(x)
    if '/' in x:
        p, q = x.split('/')
        return mpf(int(p)) / int(q)
    if '*' in x:
        a, b = x.split('*')
        return scn(a) * scn(b)
    if x.lstrip('-').isdigit():
        return mpf(int(x))
    return num(symval(x))


# ---------------------------------------------------------------- algebra creation
def _alg(w, args, p):
    return build_algebra(p, w.inp)


op('alg', '', 'gram', _alg, lambda r, I, a, p: [list(row) for row in I.gram])


def _canon_gram(w, v, i):
    n = v.n
    return [[number(v.g[a, b]) for b in range(n)] for a in range(n)]


CANON['gram'] = _canon_gram
SAME['gram'] = lambda a, b: len(a) == len(b) and all(
    abs(x - y) < mpf(10) ** -20 * (1 + abs(x)) for r, s in zip(a, b) for x, y in zip(r, s))


# ---------------------------------------------------------------- constructors
def masks_of_grade(n, r):
    """masks in galgebra's blade order (lexicographic index tuples)"""
    import itertools
    return [sum(1 << i for i in c) for c in itertools.combinations(range(n), r)]


def all_masks(n):
    return [m for r in range(n + 1) for m in masks_of_grade(n, r)]


def _mvsum(w, args, p):
    ga = args[0]
    how = p.get('how', 'blades')
    parts = []
    for m, c in p['c']:
        if how == 'flat':
            k = [i for i in range(ga.n) if m >> i & 1]
            b = ga.mv(1, 'scalar')
            for i in k:
                b = b ^ ga.mv()[i]
        elif how == 'sym':
            b = ga.mv(ga.blades.flat[all_masks(ga.n).index(m)])
        else:
            b = ga.mv_blades.flat[all_masks(ga.n).index(m)]
        parts.append(sc(c) * b)
    r = parts[0]
    for x in parts[1:]:
        r = r + x
    return r


op('mvsum', 'alg', 'mv', _mvsum, lambda r, I, a, p: I.cl.clean({m: scn(c) for m, c in p['c']}))


def _mvgrade(w, args, p):
    ga = args[0]
    c = w.inp([sc(x) for x in p['c']])
    r = p['r']
    how = p.get('how', 'int')
    if how == 'name' and r == 1:
        return ga.mv(c, 'vector')
    if how == 'name' and r == 2:
        return ga.mv(c, 'bivector')
    if how == 'name' and r == ga.n:
        return ga.mv(c, 'pseudo')
    if how == 'name':
        return ga.mv(c, 'grade', r)
    return ga.mv(c, r)


op('mvgrade', 'alg', 'mv', _mvgrade, lambda r, I, a, p: I.cl.clean(
    {m: scn(c) for m, c in zip(masks_of_grade(I.n, p['r']), p['c'])}))


def _mvname(w, args, p):
    ga = args[0]
    if p['kind'] == 'grade':
        return ga.mv(p['name'], p['r'])
    return ga.mv(p['name'], p['kind'])


def _kind_masks(n, p):
    k = p['kind']
    if k == 'grade':
        return masks_of_grade(n, p['r'])
    if k == 'vector':
        return masks_of_grade(n, 1)
    if k in ('bivector', 'grade2'):
        return masks_of_grade(n, 2)
    if k == 'pseudo':
        return masks_of_grade(n, n)
    if k in ('even', 'spinor'):
        return [m for m in all_masks(n) if popcount(m) % 2 == 0]
    if k == 'odd':
        return [m for m in all_masks(n) if popcount(m) % 2 == 1]
    if k == 'mv':
        return all_masks(n)
    if k == 'scalar':
        return [0]
    raise ValueError(k)


def _name_value(I, name, m):
    if m == 0:
        return num(symval(name))
    start = I.spec.get('start', 1)
    lab = I.spec['coords'].split() if I.spec.get('coords') else [str(start + i) for i in range(I.n)]
    sup = ''.join(lab[i] for i in range(I.n) if m >> i & 1)
    return num(symval('%s__%s' % (name, sup)))


op('mvname', 'alg', 'mv', _mvname,
   lambda r, I, a, p: {m: _name_value(I, p['name'], m) for m in _kind_masks(I.n, p)})
op('mvscalar', 'alg', 'mv', lambda w, a, p: a[0].mv(sc(p['c'])) if p.get('how') == 'expr'
   else a[0].mv(sc(p['c']), 'scalar'), lambda r, I, a, p: I.cl.scalar(scn(p['c'])))
op('zero', 'alg', 'mv', lambda w, a, p: a[0].mv(0) if p.get('how') else __import__('galgebra.mv').mv.Mv(ga=a[0]),
   lambda r, I, a, p: {})
op('basis', 'alg', 'mv', lambda w, a, p: a[0].mv()[p['i']], lambda r, I, a, p: {1 << p['i']: mpf(1)})
op('blade', 'alg', 'mv', lambda w, a, p: a[0].mv_blades.flat[p['k']],
   lambda r, I, a, p: {all_masks(I.n)[p['k']]: mpf(1)})
op('E', 'alg', 'mv', lambda w, a, p: a[0].E(), lambda r, I, a, p: I.cl.E())
op('Ips', 'alg', 'mv', lambda w, a, p: a[0].I(), lambda r, I, a, p: I.I())


def _recip_ref(r, I, a, p):
    if I.degenerate:
        raise Undefined
    G = mpmath.matrix(I.gram)
    x = mpmath.inverse(G)
    v = I.cl.clean({1 << j: x[p['i'], j] for j in range(I.n)})
    if not p.get('norm', True) and not I.ortho:
        return I.cl.scale(v, I.cl.E_sq())
    return v


op('recip', 'alg', 'mv', lambda w, a, p: a[0].mvr(norm=p.get('norm', True))[p['i']], _recip_ref)


def _copy(w, args, p):
    import copy
    from galgebra.mv import Mv
    if p.get('how') == 1:
        return copy.copy(args[0])
    if p.get('how') == 2:
        return args[0].Ga.mv(args[0])
    if p.get('how') == 3:
        return args[0] + 0
    return Mv(args[0], ga=args[0].Ga)


op('copy', 'mv', 'mv', _copy, lambda r, I, a, p: dict(a[0]))

# ---------------------------------------------------------------- binary products
_BIN = {
    'add': (lambda a, b: a + b, 'add'), 'sub': (lambda a, b: a - b, 'sub'),
    'gp': (lambda a, b: a * b, 'gp'), 'wedge': (lambda a, b: a ^ b, 'wedge'),
    'dot': (lambda a, b: a | b, 'hestenes'), 'lc': (lambda a, b: a < b, 'lc'),
    'rc': (lambda a, b: a > b, 'rc'), 'anti': (lambda a, b: a << b, 'anti'),
    'comm': (lambda a, b: a >> b, 'comm'),
}
for _n, (_f, _m) in _BIN.items():
    op(_n, 'mv mv', 'mv', lambda w, a, p, _f=_f: _f(a[0], a[1]),
       lambda r, I, a, p, _m=_m: getattr(I.cl, _m)(a[0], a[1]), tags=('alg', 'bin'))


def _com(w, a, p):
    from galgebra.ga import Ga
    return Ga.com(a[0], a[1])


op('com', 'mv mv', 'mv', _com, lambda r, I, a, p: I.cl.comm(a[0], a[1]), tags=('alg', 'bin'))


def _mulstatic(w, a, p):
    from galgebra.mv import Mv
    return Mv.Mul(a[0], a[1], p['m'])


_MODE = {'*': 'gp', '^': 'wedge', '|': 'hestenes', '<': 'lc', '>': 'rc'}
op('mulstatic', 'mv mv', 'mv', _mulstatic, lambda r, I, a, p: getattr(I.cl, _MODE[p['m']])(a[0], a[1]),
   tags=('alg', 'bin'))
# expression-level products of the algebra object
op('gamul', 'mv mv', 'mvexpr', lambda w, a, p: a[0].Ga.Mul(a[0].blade_rep().obj, a[1].blade_rep().obj, mode=p['m']),
   lambda r, I, a, p: getattr(I.cl, _MODE[p['m']])(a[0], a[1]), tags=('alg', 'bin', 'leaf'))


def _gadot(w, a, p):
    ga = a[0].Ga
    old = ga.dot_mode
    ga.dot_mode = p['m']
    try:
        return ga.dot(a[0].blade_rep().obj, a[1].blade_rep().obj)
    finally:
        ga.dot_mode = old


op('gadot', 'mv mv', 'mvexpr', _gadot, lambda r, I, a, p: getattr(I.cl, _MODE[p['m']])(a[0], a[1]),
   tags=('alg', 'bin', 'leaf'))


def _scalar_product_ref(r, I, a, p):
    return {k: v for k, v in I.cl.gp(a[0], a[1]).items() if k == 0}


op('gasp', 'mv mv', 'mvexpr', lambda w, a, p: a[0].Ga.scalar_product(a[0].blade_rep().obj, a[1].blade_rep().obj),
   lambda r, I, a, p: I.cl.clean({0: sum((
       v * w_ * I.cl.blade_gp(m, k).get(0, 0) for m, v in a[0].items() for k, w_ in a[1].items()
       if popcount(m) == popcount(k)), mpf(0))}), tags=('alg', 'bin', 'leaf'))

# with scalars, both orders
_SCAL = {
    'add_s': (lambda a, s: a + s, lambda c, a, s: c.add(a, c.scalar(s))),
    'radd_s': (lambda a, s: s + a, lambda c, a, s: c.add(a, c.scalar(s))),
    'sub_s': (lambda a, s: a - s, lambda c, a, s: c.sub(a, c.scalar(s))),
    'rsub_s': (lambda a, s: s - a, lambda c, a, s: c.sub(c.scalar(s), a)),
    'mul_s': (lambda a, s: a * s, lambda c, a, s: c.scale(a, s)),
    'rmul_s': (lambda a, s: s * a, lambda c, a, s: c.scale(a, s)),
    'div_s': (lambda a, s: a / s, lambda c, a, s: c.scale(a, 1 / s)),
    'wedge_s': (lambda a, s: a ^ s, lambda c, a, s: c.scale(a, s)),
    'rwedge_s': (lambda a, s: s ^ a, lambda c, a, s: c.scale(a, s)),
    'dot_s': (lambda a, s: a | s, lambda c, a, s: {}),
    'rdot_s': (lambda a, s: s | a, lambda c, a, s: {}),
    'lc_s': (lambda a, s: a < s, lambda c, a, s: c.scale({0: a[0]} if 0 in a else {}, s)),
    'rc_s': (lambda a, s: a > s, lambda c, a, s: c.scale(a, s)),
}
for _n, (_f, _g) in _SCAL.items():
    op(_n, 'mv', 'mv', lambda w, a, p, _f=_f: _f(a[0], sc(p['s'])),
       lambda r, I, a, p, _g=_g: _g(I.cl, a[0], scn(p['s'])), tags=('alg', 'scal'))


def _aug(w, a, p):
    """augmented assignment on a second name for the same object"""
    x = a[0]
    k = p['m']
    if k == '+=':
        x += a[1]
    elif k == '-=':
        x -= a[1]
    elif k == '*=':
        x *= a[1]
    elif k == '^=':
        x ^= a[1]
    elif k == '|=':
        x |= a[1]
    return x


_AUG = {'+=': 'add', '-=': 'sub', '*=': 'gp', '^=': 'wedge', '|=': 'hestenes'}
op('aug', 'mv mv', 'mv', _aug, lambda r, I, a, p: getattr(I.cl, _AUG[p['m']])(a[0], a[1]),
   tags=('alg', 'bin'))


# ---------------------------------------------------------------- unary
def _fm(name):
    """method or the equivalent module-level function"""
    def f(w, a, p):
        if p.get('fn'):
            import galgebra.mv as m
            return getattr(m, name)(a[0])
        return getattr(a[0], name)()
    return f


op('neg', 'mv', 'mv', lambda w, a, p: -a[0], lambda r, I, a, p: I.cl.scale(a[0], -1), tags=('alg', 'un'))
op('rev', 'mv', 'mv', lambda w, a, p: ~a[0] if p.get('inv') else _fm('rev')(w, a, p),
   lambda r, I, a, p: I.cl.rev(a[0]), tags=('alg', 'un'))
op('g_invol', 'mv', 'mv', _fm('g_invol'), lambda r, I, a, p: I.cl.invol(a[0]), tags=('alg', 'un'))
op('ccon', 'mv', 'mv', _fm('ccon'), lambda r, I, a, p: I.cl.ccon(a[0]), tags=('alg', 'un'))
op('even', 'mv', 'mv', _fm('even'), lambda r, I, a, p: I.cl.even(a[0]), tags=('alg', 'un'))
op('odd', 'mv', 'mv', _fm('odd'), lambda r, I, a, p: I.cl.odd(a[0]), tags=('alg', 'un'))


def _grade(w, a, p):
    import galgebra.mv as m
    how = p.get('how')
    if how == 'item':
        return a[0][p['r']]
    if how == 'fn':
        return m.grade(a[0], p['r'])
    if how == 'get':
        return a[0].get_grade(p['r'])
    return a[0].grade(p['r'])


op('grade', 'mv', 'mv', _grade, lambda r, I, a, p: I.cl.grade(a[0], p['r']), tags=('alg', 'un'))
op('dual', 'mv', 'mv', _fm('dual'), lambda r, I, a, p: I.dual(a[0], r.mode), tags=('alg', 'un', 'reads_mode'))


def _undual_ref(r, I, a, p):
    I2 = I.cl.s(I.cl.gp(I.I(), I.I()))
    return I.cl.scale(I.dual(a[0], r.mode), I2)


op('undual', 'mv', 'mv', _fm('undual'), _undual_ref, tags=('alg', 'un', 'reads_mode'))
op('dual_undual', 'mv', 'mv', lambda w, a, p: a[0].dual().undual() if p.get('o') else a[0].undual().dual(),
   lambda r, I, a, p: dict(a[0]) if not I.degenerate else None, tags=('alg', 'un', 'reads_mode'))
op('inv', 'mv', 'mv', _fm('inv'), lambda r, I, a, p: I.cl.inv(a[0]), tags=('alg', 'inverse'), raises=True)
op('shirokov', 'mv', 'mv', _fm('shirokov_inverse'), lambda r, I, a, p: I.cl.inv(a[0]),
   tags=('alg', 'inverse'), raises=True)
op('hitzer', 'mv', 'mv', _fm('hitzer_inverse'), lambda r, I, a, p: I.cl.inv(a[0]),
   tags=('alg', 'inverse'), raises=True)
op('div', 'mv mv', 'mv', lambda w, a, p: a[0] / a[1], lambda r, I, a, p: I.cl.gp(a[0], I.cl.inv(a[1])),
   tags=('alg', 'inverse'), raises=True)
op('rdiv_s', 'mv', 'mv', lambda w, a, p: sc(p['s']) / a[0],
   lambda r, I, a, p: I.cl.scale(I.cl.inv(a[0]), scn(p['s'])), tags=('alg', 'inverse'), raises=True)
op('pow', 'mv', 'mv', lambda w, a, p: a[0] ** p['n'], lambda r, I, a, p: I.cl.pow(a[0], p['n']), tags=('alg',))
op('powneg', 'mv', 'mv', lambda w, a, p: a[0] ** -p['n'], lambda r, I, a, p: I.cl.pow(a[0], -p['n']),
   tags=('alg', 'inverse'), raises=True)
op('exp', 'mv', 'mv', lambda w, a, p: __import__('galgebra.mv').mv.exp(a[0], p['hint']) if p.get('fn')
   else a[0].exp(p['hint']), lambda r, I, a, p: I.cl.exp(a[0]), tags=('alg', 'special'), raises=True)
for _n in ('expand', 'simplify', 'trigsimp', 'collect'):
    op(_n, 'mv', 'mv', lambda w, a, p, _n=_n: getattr(a[0], _n)(), lambda r, I, a, p: dict(a[0]),
       tags=('alg', 'un', 'rewrite'))
op('simplify_modes', 'mv', 'mv', lambda w, a, p: a[0].simplify(w.inp([sympy.expand, sympy.factor])),
   lambda r, I, a, p: dict(a[0]), tags=('alg', 'un', 'rewrite'))
op('func', 'mv', 'mv', lambda w, a, p: a[0].func(lambda c: 3 * c), lambda r, I, a, p: I.cl.scale(a[0], 3),
   tags=('alg', 'un'))


def _subs(w, a, p):
    """substitute the point's own values: the value at the point does not change"""
    m = {}
    for s in p['s']:
        f = symval(s)
        m[sympy.Symbol(s, real=True)] = sympy.Rational(f.numerator, f.denominator)
    return a[0].subs(w.inp(list(m.items()) if p.get('how') == 'list' else m))


op('subs', 'mv', 'mv', _subs, lambda r, I, a, p: dict(a[0]), tags=('alg', 'un', 'rewrite'))
op('base_rep', 'mv', 'mv', lambda w, a, p: a[0].base_rep(), lambda r, I, a, p: dict(a[0]), tags=('alg', 'baserep'))
op('blade_rep', 'mv', 'mv', lambda w, a, p: a[0].blade_rep(), lambda r, I, a, p: dict(a[0]), tags=('alg', 'baserep2'))


# ---------------------------------------------------------------- geometry in blades
def _blade_of(I, b):
    q = I.cl.qform(b)
    if q == 0 or not b:
        raise Undefined
    gs = {popcount(k) for k in b}
    if len(gs) != 1:
        raise Undefined
    return I.cl.scale(I.cl.rev(b), 1 / q), gs.pop()


def _refl_ref(r, I, a, p):
    binv, s = _blade_of(I, a[1])
    out = {}
    for g in range(I.n + 1):
        x = I.cl.grade(a[0], g)
        t = I.cl.gp(I.cl.gp(a[1], x), binv)
        out = I.cl.add(out, t, (-1) ** (g * (s + 1)))
    return out


def _proj_ref(r, I, a, p):
    binv, s = _blade_of(I, a[1])
    return I.cl.gp(I.cl.lc(a[0], a[1]), binv)


def _rot_ref(r, I, a, p):
    h = I.cl.scale(a[1], mpf(1) / 2)
    return I.cl.gp(I.cl.gp(I.cl.exp(I.cl.scale(h, -1)), a[0]), I.cl.exp(h))


def _m():
    import galgebra.mv as m
    return m


op('refl', 'mv mv', 'mv', lambda w, a, p: _m().refl(a[1], a[0]) if p.get('fn') else a[0].reflect_in_blade(a[1]),
   _refl_ref, tags=('alg', 'blade2'), raises=True)
op('proj', 'mv mv', 'mv', lambda w, a, p: _m().proj(a[1], a[0]) if p.get('fn') else a[0].project_in_blade(a[1]),
   _proj_ref, tags=('alg', 'blade2'), raises=True)
op('rot', 'mv mv', 'mv', lambda w, a, p: _m().rot(a[1], a[0], p['hint']) if p.get('fn')
   else a[0].rotate_multivector(a[1], p['hint']), _rot_ref, tags=('alg', 'special2'), raises=True)


def _cross_ref(r, I, a, p):
    return I.cl.scale(I.cl.gp(I.I(), I.cl.wedge(a[0], a[1])), -1)


op('cross', 'mv mv', 'mv', lambda w, a, p: _m().cross(a[0], a[1]), _cross_ref, tags=('alg', 'cross'), raises=True)


def _recframe(w, a, p):
    ga = a[0].Ga
    r = ga.ReciprocalFrame(w.inp(list(a)), mode=p.get('mode', 'norm'))
    return list(r[:len(a)])


def _recframe_ref(r, I, a, p):
    k = len(a)
    E = I.cl.scalar(1)
    for b in a:
        E = I.cl.wedge(E, b)
    E2 = I.cl.s(I.cl.gp(E, E))
    if abs(E2) < mpf(10) ** -12:
        raise Undefined
    # the reciprocal frame inside span(a): Gram inverse
    G = mpmath.matrix(k, k)
    for i in range(k):
        for j in range(k):
            G[i, j] = I.cl.s(I.cl.gp(a[i], a[j]))
    X = mpmath.inverse(G)
    out = []
    for i in range(k):
        v = {}
        for j in range(k):
            v = I.cl.add(v, a[j], X[i, j])
        out.append(I.cl.scale(v, E2) if p.get('mode') == 'append' else v)
    return out


op('recframe', 'mv mv', 'mvs', _recframe, _recframe_ref, tags=('alg', 'leaf', 'frame'), raises=True)


# ---------------------------------------------------------------- scalars and lists out
op('scalar', 'mv', 'expr', lambda w, a, p: _m().scalar(a[0]) if p.get('fn') else a[0].scalar(),
   lambda r, I, a, p: I.cl.s(a[0]), tags=('alg', 'leaf'))
op('sp', 'mv mv', 'expr', lambda w, a, p: _m().sp(a[0], a[1], p['sw']) if p.get('fn') else a[0].sp(a[1], p['sw']),
   lambda r, I, a, p: I.cl.s(I.cl.gp(I.cl.rev(a[0]) if p['sw'] else a[0], a[1])), tags=('alg', 'bin', 'leaf'))
op('qform', 'mv', 'expr', _fm('qform'), lambda r, I, a, p: I.cl.qform(a[0]), tags=('alg', 'leaf', 'norm'))
op('norm2', 'mv', 'expr', _fm('norm2'), lambda r, I, a, p: abs(I.cl.qform(a[0])), tags=('alg', 'leaf', 'norm'))
op('norm', 'mv', 'expr', lambda w, a, p: abs(a[0]) if p.get('ab') else _fm('norm')(w, a, p),
   lambda r, I, a, p: mpmath.sqrt(abs(I.cl.qform(a[0]))), tags=('alg', 'leaf', 'norm'))
op('mag2', 'mv', 'expr', _fm('mag2'),
   lambda r, I, a, p: sum((abs(I.cl.qform(I.cl.grade(a[0], g))) for g in range(I.n + 1)), mpf(0)),
   tags=('alg', 'leaf', 'norm'))
op('mag', 'mv', 'expr', _fm('mag'),
   lambda r, I, a, p: mpmath.sqrt(sum((abs(I.cl.qform(I.cl.grade(a[0], g))) for g in range(I.n + 1)), mpf(0))),
   tags=('alg', 'leaf', 'norm'))
op('blade_coefs', 'mv', 'exprs', lambda w, a, p: a[0].blade_coefs(),
   lambda r, I, a, p: [a[0].get(m, mpf(0)) for m in all_masks(I.n)], tags=('alg', 'leaf', 'coefs'))
op('blade_coefs_sel', 'mv', 'exprs',
   lambda w, a, p: a[0].blade_coefs(w.inp([a[0].Ga.mv_blades.flat[k] for k in p['k']])),
   lambda r, I, a, p: [a[0].get(all_masks(I.n)[k], mpf(0)) for k in p['k']], tags=('alg', 'leaf', 'coefs'))
op('get_coefs', 'mv', 'exprs', lambda w, a, p: a[0].grade(p['r']).get_coefs(p['r']),
   lambda r, I, a, p: [a[0].get(m, mpf(0)) for m in masks_of_grade(I.n, p['r'])], tags=('alg', 'leaf', 'coefs'))
op('projbases', 'mv', 'mv', lambda w, a, p: a[0].proj(w.inp([a[0].Ga.mv_blades.flat[k] for k in p['k']])),
   lambda r, I, a, p: {m: v for m, v in a[0].items() if m in [all_masks(I.n)[k] for k in p['k']]},
   tags=('alg', 'coefs'))
op('grade_dec', 'mv', 'grdict', lambda w, a, p: {k: v for k, v in a[0].Ga.grade_decomposition(a[0]).items()},
   lambda r, I, a, p: {g: I.cl.grade(a[0], g) for g in {popcount(k) for k in a[0]}}, tags=('alg', 'leaf', 'coefs'))


def _recompose(w, a, p):
    r = 0
    for c in a[0].components():
        r = c + r
    return r if r != 0 else a[0].Ga.mv(0)


op('components', 'mv', 'mv', _recompose, lambda r, I, a, p: dict(a[0]), tags=('alg', 'coefs'))
op('split', 'mv', 'exprs', lambda w, a, p: [a[0].Ga.split_multivector(a[0])[0], a[0].Ga.scalar_part(a[0])],
   lambda r, I, a, p: [I.cl.s(a[0])] * 2, tags=('alg', 'leaf', 'coefs'))
op('nonscalar', 'mv', 'mvexpr', lambda w, a, p: a[0].Ga.remove_scalar_part(a[0].expand()),
   lambda r, I, a, p: {k: v for k, v in a[0].items() if k}, tags=('alg', 'leaf', 'coefs'))
op('gagrades', 'mv', 'ints', lambda w, a, p: list(a[0].Ga.grades(a[0].obj)),
   lambda r, I, a, p: sorted({popcount(k) for k in a[0]}) or [0], tags=('alg', 'leaf', 'pred'))

# ---------------------------------------------------------------- predicates (polynomial coefficients)
op('is_scalar', 'mv', 'bool', lambda w, a, p: bool(a[0].is_scalar()),
   lambda r, I, a, p: all(k == 0 for k in a[0]), tags=('alg', 'leaf', 'pred'))
op('is_vector', 'mv', 'bool', lambda w, a, p: bool(a[0].is_vector()),
   lambda r, I, a, p: bool(a[0]) and all(popcount(k) == 1 for k in a[0]), tags=('alg', 'leaf', 'pred'))
op('is_zero', 'mv', 'bool', lambda w, a, p: bool(a[0].expand().is_zero()),
   lambda r, I, a, p: not a[0], tags=('alg', 'leaf', 'pred'))
op('is_base', 'mv', 'bool', lambda w, a, p: bool(a[0].expand().is_base()),
   lambda r, I, a, p: len(a[0]) == 1 and abs(list(a[0].values())[0] - 1) < mpf(10) ** -25, tags=('alg', 'leaf', 'pred0'))


def _is_versor_ref(r, I, a, p):
    c = I.cl
    V = a[0]
    n2 = c.gp(V, c.rev(V))
    if any(k for k in n2) or not n2:
        return False
    for i in range(I.n):
        x = c.gp(c.gp(c.invol(V), {1 << i: mpf(1)}), c.rev(V))
        if any(popcount(k) != 1 for k in x):
            return False
    return True


def _is_blade_ref(r, I, a, p):
    gs = {popcount(k) for k in a[0]}
    if len(gs) != 1:
        return False
    g = gs.pop()
    if g <= 1 or g >= I.n - 1:
        return True
    # simple iff every contraction of the blade with (g-1)-subsets wedges to zero
    c = I.cl
    import itertools
    E = type(c)([[1 if i == j else 0 for j in range(I.n)] for i in range(I.n)])
    for s in itertools.combinations(range(I.n), g - 1):
        v = E.lc({sum(1 << i for i in s): mpf(1)}, a[0])
        if any(abs(x) > mpf(10) ** -20 for x in E.wedge(v, a[0]).values()):
            return False
    return True


op('is_versor', 'mv', 'bool', lambda w, a, p: bool(a[0].is_versor()), _is_versor_ref, tags=('alg', 'leaf', 'predx'))
op('is_blade', 'mv', 'bool', lambda w, a, p: bool(a[0].is_blade()), _is_blade_ref, tags=('alg', 'leaf', 'predx'))
def _pure_ref(r, I, a, p):
    g = sorted({popcount(k) for k in a[0]}) or [0]
    return g[0] if len(g) == 1 else -g[-1]


op('pure_grade', 'mv', 'int', lambda w, a, p: int(a[0].pure_grade()), _pure_ref, tags=('alg', 'leaf', 'predx'))
op('equal', 'mv mv', 'bool', lambda w, a, p: a[0].expand() == a[1].expand(),
   lambda r, I, a, p: a[0] == a[1] if (not a[0] or not a[1] or set(a[0]) != set(a[1]) or
                                       any(abs(a[0][k] - a[1][k]) > mpf(10) ** -20 for k in a[0])) else True,
   tags=('alg', 'leaf', 'bin', 'eq'))
op('equal_self', 'mv', 'bool', lambda w, a, p: (a[0] + a[0] - a[0]).expand() == a[0].expand(),
   lambda r, I, a, p: True, tags=('alg', 'leaf', 'eq'))

# ---------------------------------------------------------------- algebra-level queries
op('e_sq', 'alg', 'expr', lambda w, a, p: a[0].e_sq, lambda r, I, a, p: I.cl.E_sq(), tags=('alg', 'gaq', 'leaf'))


def _ginv_ref(r, I, a, p):
    if I.degenerate:
        raise Undefined
    X = mpmath.inverse(mpmath.matrix(I.gram))
    return [X[i, j] for i in range(I.n) for j in range(I.n)]


op('g_inv', 'alg', 'exprs', lambda w, a, p: list(a[0].g_inv), _ginv_ref, tags=('alg', 'gaq', 'leaf'))
op('detg', 'alg', 'expr', lambda w, a, p: a[0].g.det(), lambda r, I, a, p: I.det, tags=('alg', 'gaq', 'leaf'))
op('nblades', 'alg', 'ints', lambda w, a, p: [len(x) for x in a[0].blades] + [len(x) for x in a[0].mv_blades],
   lambda r, I, a, p: [len(masks_of_grade(I.n, g)) for g in range(I.n + 1)] * 2, tags=('alg', 'gaq', 'leaf'))


# ---------------------------------------------------------------- global modes
def _dual_mode(w, a, p):
    from galgebra.ga import Ga
    Ga.dual_mode(p['m'])


def _dual_mode_ref(r, I, a, p):
    r.mode = p['m']


op('dual_mode', '', 'none', _dual_mode, _dual_mode_ref, tags=('mode', 'sets_mode'))


def _simp_profile(w, a, p):
    from galgebra.metric import Simp
    Simp.profile(w.inp([getattr(sympy, x) for x in p['m']]))


op('simp_profile', '', 'none', _simp_profile, tags=('mode',))


# ---------------------------------------------------------------- noise: printing, failing calls
def _printing(w, a, p):
    from galgebra import printer
    v = a[0]
    k = p['k']
    if k == 'str':
        str(v)
    elif k == 'repr':
        repr(v)
    elif k == 'latex':
        printer.latex(v)
    elif k == 'fmt':
        str(v.Fmt(p['f']))
    elif k == 'fmt_latex':
        printer.latex(v.Fmt(p['f'], 'A'))
    elif k == 'print':
        print(v)
    elif k == 'html':
        v._repr_latex_()


op('print', 'mv', 'none', _printing, tags=('noise',))


def _failing(w, a, p):
    """calls the library must refuse; the refusal must leave nothing behind"""
    from galgebra.ga import Ga
    from galgebra.mv import Mv
    x = a[0]
    ga = x.Ga
    k = p['k']
    calls = {
        'mode': lambda: Ga.dual_mode('bogus'),
        'preset': lambda: Ga.preset('nonsense'),
        'grade_pow': lambda: x ** sympy.Rational(1, 2),
        'mvtype': lambda: ga.mv('A', 'nosuchtype'),
        'toomany': lambda: ga.mv([1] * (ga.n + 1), 'vector'),
        'badkw': lambda: ga.mv('A', 'vector', nosuch=1),
        'zeroinv': lambda: (x * 0).inv() / 0,
        'badsp': lambda: x.sp(3),
        'badswitch': lambda: x.sp(x, 'bogus'),
        'metric': lambda: Ga('f*1|2', g='1 0 0,0 1 0'),
        'metric2': lambda: Ga('f*1|2', g=[1, 1], norm=True, X=3, coords=5),
        'nometric': lambda: Ga('f'),
        'nonortho': lambda: Ga('f*1|2', g='1 1,1 1', norm=True),
        'basis': lambda: Ga(7),
        'badmul': lambda: Mv.Mul(x, x, '@'),
        'badexp': lambda: (1 + x + ga.mv()[0] * 7).exp(),
        'othermix': lambda: x + Ga('f*1|2', g=[1, 1]).mv()[0],
        'othermul': lambda: Ga('f*1|2', g=[1, 1]).mv()[0] * x,
        'notcross': lambda: _m().cross(x, 1 + x),
        'notmv': lambda: _m().rev(5),
        'getcoefs': lambda: (1 + ga.mv()[0]).get_coefs(1),
        'parametric': lambda: ga.parametric((1, 2)),
        'grads': lambda: Ga('f*1|2', g=[1, 1]).grads(),
        'clzero': lambda: __import__('galgebra.interop', fromlist=['Cl']).Cl(0),
        'lt': lambda: ga.lt([1] * (ga.n + 2)),
    }
    try:
        calls[k]()
    except Exception:
        return True
    return False


FAILING = ['mode', 'preset', 'grade_pow', 'mvtype', 'toomany', 'badkw', 'zeroinv', 'badsp', 'badswitch',
           'metric', 'metric2', 'nometric', 'nonortho', 'basis', 'badmul', 'badexp', 'othermix',
           'othermul', 'notcross', 'notmv', 'getcoefs', 'parametric', 'grads', 'clzero']
op('fail', 'mv', 'none', _failing, tags=('noise',))


# ---------------------------------------------------------------- several algebras
def _mix(w, a, p):
    """an expression over multivectors of two algebras: is it refused?"""
    import galgebra.mv as m
    x, y = a
    k = p['k']
    calls = {
        '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '^': lambda: x ^ y, '|': lambda: x | y,
        '<': lambda: x < y, '>': lambda: x > y, '>>': lambda: x >> y, '<<': lambda: x << y, '/': lambda: x / y,
        'sp': lambda: x.sp(y), 'com': lambda: type(x.Ga).com(x, y), 'Mul': lambda: m.Mv.Mul(x, y, '*'),
        'refl': lambda: x.reflect_in_blade(y), 'proj': lambda: x.project_in_blade(y),
        'rot': lambda: x.rotate_multivector(y), 'cross': lambda: m.cross(x, y), '==': lambda: x == y,
        'aug': lambda: __import__('operator').iadd(x, y),
    }
    try:
        calls[k]()
    except RecursionError:
        raise
    except Exception:
        return True
    return False


MIXES = ['+', '-', '*', '^', '|', '<', '>', '>>', '<<', 'sp', 'com', 'Mul', 'proj', '==', 'aug']
op('mix', 'mv mv', 'bool', _mix, lambda r, I, a, p: True, tags=('mix',))


def _discard(w, a, p):
    """drop every object of an algebra, and the algebra, and collect the garbage"""
    import gc
    tgt = p['alg']
    for i in [i for i, al in list(w.alg_of.items()) if al == tgt]:
        w.val.pop(i, None)
        w.spec.pop(i, None)
    w.handed = []
    a.clear()
    gc.collect()


op('discard', '', 'none', _discard, tags=('mix',))


# ---------------------------------------------------------------- modes, in depth
def _get_mode(w, a, p):
    from galgebra.ga import Ga
    return ' '.join([Ga.dual_mode_value] + [a[0].dual_mode_value] * bool(a))


op('get_mode', 'alg', 'str', _get_mode, lambda r, I, a, p: ' '.join([r.mode] * 2), tags=('mode', 'reads_mode'))


def _mode_default(w, a, p):
    from galgebra.ga import Ga
    Ga.dual_mode()


def _mode_default_ref(r, I, a, p):
    r.mode = 'I+'


op('dual_mode_default', '', 'none', _mode_default, _mode_default_ref, tags=('mode', 'sets_mode'))
BAD_MODES = ['bogus', '', 'I', '+I+', 'Iinv', '++I', 'i+', 'I+ ', ' -I', '+iinv', 'IinvI', '-']


def _badmode(w, a, p):
    from galgebra.ga import Ga
    from galgebra import interop
    from galgebra.interop import kingdon
    k = p['k']
    try:
        if k == 'mode':
            Ga.dual_mode(p['m'])
        elif k == 'modetype':
            Ga.dual_mode([3])
        elif k == 'core0':
            interop.Cl(0)
        elif k == 'king0':
            kingdon.Cl(0, 0, 0)
        elif k == 'corekw':
            interop.Cl(2, nosuch=3)
        elif k == 'kingkw':
            kingdon.Cl(2, nosuch=3)
        elif k == 'coreneg':
            interop.Cl(2, coords=sympy.symbols('x y z'))
        elif k == 'kingneg':
            kingdon.Cl(2, coords=sympy.symbols('x y z'))
    except Exception:
        return True
    return False


op('badmode', '', 'bool', _badmode, lambda r, I, a, p: True, tags=('mode',))


class _Boom(Exception):
    pass


def _simp_bad(w, a, p):
    """a profile whose function fails at its k-th call: only the call that used it may fail"""
    from galgebra.metric import Simp
    from galgebra import printer
    old = Simp.modes
    left = [p['n']]

    def bad(x):
        left[0] -= 1
        if left[0] < 0:
            raise _Boom
        return x
    v = a[0]
    try:
        Simp.profile([bad])
        calls = {'str': lambda: str(v), 'latex': lambda: printer.latex(v), 'apply': lambda: Simp.apply(v.obj),
                 'applymv': lambda: Simp.applymv(v), 'fmt': lambda: str(v.Fmt(2)), 'func': lambda: v.func(bad),
                 'simplify': lambda: v.simplify(bad), 'repr': lambda: repr(v)}
        try:
            calls[p['k']]()
        except _Boom:
            return left[0] < 0
        return left[0] >= 0
    finally:
        Simp.profile(old)


op('simp_bad', 'mv', 'bool', _simp_bad, lambda r, I, a, p: True, tags=('mode', 'noise2'))


def _simp_apply(w, a, p):
    from galgebra.metric import Simp
    from galgebra.mv import Mv
    if p['k'] == 'mv':
        return Simp.applymv(a[0])
    return Mv(Simp.apply(a[0].obj), ga=a[0].Ga)


op('simp_apply', 'mv', 'mv', _simp_apply, lambda r, I, a, p: dict(a[0]), tags=('alg', 'un', 'rewrite'))
PROFILES = {'expand': lambda: [sympy.expand], 'simplify': lambda: [sympy.simplify], 'factor': lambda: [sympy.factor],
            'both': lambda: [sympy.expand, sympy.factor], 'single': lambda: sympy.expand, 'none': lambda: [],
            'ident': lambda: [lambda x: x], 'together': lambda: [sympy.together], 'tuple': lambda: (sympy.cancel,)}


def _simp_set(w, a, p):
    from galgebra.metric import Simp
    Simp.profile(PROFILES[p['m']]())


op('simp_set', '', 'none', _simp_set, tags=('mode',))


# ---------------------------------------------------------------- texts
def _symtext(w, a, p):
    from galgebra import printer
    out = []
    for nm in p['names']:
        s = sympy.Symbol(nm, real=True)
        f = sympy.Function(nm)(sympy.Symbol('t'))
        out += [str(s), printer.latex(s), str(f), printer.latex(f)]
        out += [printer.latex(s ** 2 + sympy.sqrt(s)), printer.latex(f ** 2 + f.diff(sympy.Symbol('t')))]
    return ' ; '.join(out)


op('symtext', '', 'str', _symtext, tags=('text',))
FRAGMENTS = ['alpha', 'beta', 'Gamma', 'lamda', 'lambda', 'psi', 'epsilon', 'eta', 'theta', 'mu', 'nu', 'hbar', 'ell', 'infty',
             'bar', 'hat', 'beth', 'aleph', 'x', 'y2', 'A', 'mho', 'gimel', 'daleth', 'varphi', 'omicron', 'pi', 'chi']


def _mvtext(w, a, p):
    from galgebra import printer
    v = a[0]
    k = p['k']
    if k == 'str':
        return str(v)
    if k == 'repr':
        return repr(v)
    if k == 'latex':
        return printer.latex(v)
    if k == 'fmt':
        return str(v.Fmt(p['f'], p.get('t')))
    if k == 'fmtlatex':
        return printer.latex(v.Fmt(p['f'], p.get('t')))
    if k == 'html':
        return str(v._repr_latex_())
    if k == 'obj':
        return str(v.obj) + ' | ' + sympy.srepr(v.obj)
    if k == 'list':
        return str([v, v]) + str({'a': v}) + printer.latex([v, v])
    if k == 'Fmt':
        return str(printer.Fmt([v, v], p['f'] % 2)) + str(printer.Fmt((v,), 1)) + str(printer.Fmt({v: v}, 1))
    if k == 'ostr':
        return printer.ostr({'k': v, 'm': [v]}, bool(p['f'] % 2))
    if k == 'terms':
        from galgebra import metric
        return str(metric.linear_expand(v.obj)) + str(list(metric.linear_expand_terms(v.obj)))
    if k == 'parts':
        g = v.Ga.grade_decomposition(v)
        return str(list(g.items())) + str(v.components()) + str(v.blade_coefs())
    if k == 'compare':
        return str(v.collect()) + str(v.expand().obj) + str(v.Ga.grades(v.obj))
    raise ValueError(k)


TEXTS = ['str', 'repr', 'latex', 'fmt', 'fmtlatex', 'html', 'obj', 'list', 'Fmt', 'ostr', 'terms', 'parts', 'compare']
op('text', 'mv', 'str', _mvtext, tags=('text', 'reads_print'))


def _gatext(w, a, p):
    from galgebra import printer
    ga = a[0]
    out = [str(ga.g), printer.latex(ga.g), str(ga.blades.flat), str(ga.mv_blades.flat), str(ga.basis), str(ga.r_symbols),
           str([list(x) for x in ga.blades]), str(ga.indexes)]
    return ' ; '.join(out)


op('gatext', 'alg', 'str', _gatext, tags=('text',))
