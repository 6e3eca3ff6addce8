"""Calculus operations: coordinate systems, submanifolds, fields, derivatives, differential operators."""
import sympy
from mpmath import mpf

from . import jets
from .jets import Ctx, Jet, Patch, const, ev, to_sympy
from .refmodel import TINY, Undefined, mv_close, mv_str, num
from .world import CANON, MATRICES, OPS, SAME, SHOW, extract_obj, number, op
from .ops_alg import all_masks, masks_of_grade


# ---------------------------------------------------------------- coordinate systems
def pull(spec, env, x):
    """metric of spec pulled back along env (its coordinates as jets), over the variables of x"""
    k = x.m
    if 'base' in spec:
        base = spec['base']
        env2 = {c: const(x, ev(u, env, x)) for c, u in zip(base['coords'], spec['u'])}
        return pull(base, env2, x)
    if 'X' in spec:
        J = [[const(x, ev(u, env, x)).d(i) for i in range(k)] for u in spec['X']]
        G = None
    else:
        n = len(spec['coords'])
        G = [[const(x, ev(spec['g'][i][j], env, x)) for j in range(n)] for i in range(n)]
        J = [[env[c].d(i) for i in range(k)] for c in spec['coords']]
    out = [[None] * k for _ in range(k)]
    for i in range(k):
        for j in range(k):
            t = x.const(0)
            for a in range(len(J)):
                for b in range(len(J)):
                    if G is None:
                        if a == b:
                            t = t + J[a][i] * J[b][j]
                    else:
                        t = t + G[a][b] * J[a][i] * J[b][j]
            out[i][j] = t
    return out


class ManInfo(Patch):
    def __init__(self, spec):
        self.spec = spec

        def gram(env, x):
            big = Ctx(x.m, x.K + 1)
            from .world import symval
            benv = {c: big.var(i, symval(c)) for i, c in enumerate(spec['coords'])}
            g = pull(spec, benv, big)
            out = []
            for row in g:
                out.append([])
                for v in row:
                    c = [v.c[big.pos[a]] for a in x.idx]
                    out[-1].append(Jet(x, c, x.K))
            return out
        Patch.__init__(self, spec['coords'], gram, norm=spec.get('norm', False), flat=spec.get('flat', False))
        self.constant = all(abs(c) < TINY for row in self.g for v in row for c in v.c[1:])
        self.ortho = all(abs(self.g[i][j]) < TINY for i in range(self.n) for j in range(self.n) if i != j)

    def field(self, comps):
        return self.cl.clean({m: const(self.x, ev(e, self.env, self.x)) for m, e in comps})

    def scal(self, e):
        return const(self.x, ev(e, self.env, self.x))


def cn(ga):
    return [str(c) for c in ga.coords or ()]


def _coords(spec):
    return [sympy.Symbol(c, real=True) for c in spec['coords']]


def _man(w, args, p):
    from galgebra.ga import Ga
    co = _coords(p)
    n = len(co)
    form = p.get('basis', 'names')
    root = p.get('root', 'e')
    if form == 'root':
        basis = root
    elif form == 'star' and n > 1:
        basis = root + '*' + '|'.join(p['coords'])
    else:
        basis = ' '.join('%s_%s' % (root, c) for c in p['coords']) if n > 1 else '%s_%s,' % (root, p['coords'][0])
    kw = {'coords': w.inp(list(co) if p.get('colist') else tuple(co))} if not p.get('nocoords') else {}
    if p.get('norm'):
        kw['norm'] = True
    if 'X' in p:
        kw['X'] = w.inp([to_sympy(e, p['coords']) for e in p['X']])
    else:
        g = [[to_sympy(e, p['coords']) for e in row] for row in p['g']]
        f = p.get('form', 'list')
        if f == 'diag':
            kw['g'] = w.inp([g[i][i] for i in range(n)])
        elif f in MATRICES:
            kw['g'] = w.inp(getattr(sympy, MATRICES[f])(g))
        else:
            kw['g'] = w.inp(g)
    if p.get('build'):
        return Ga.build(basis, **kw)[0]
    return Ga(basis, **kw)


op('man', '', 'man', _man, None, tags=('calc',))
OPS['man'].mkinfo = lambda r, a, p: ManInfo(p)


def _sm(w, args, p):
    ga = args[0]
    co = _coords(p)
    u = [to_sympy(e, p['coords']) for e in p['u']]
    kw = {}
    if p.get('norm'):
        kw['norm'] = True
    if p.get('root'):
        kw['root'] = p['root']
    return ga.sm(w.inp(u), w.inp(list(co) if p.get('colist') else tuple(co)), **kw)


op('sm', 'man', 'man', _sm, None, tags=('calc',))
OPS['sm'].mkinfo = lambda r, a, p: ManInfo(dict(p, base=a[0].spec))


def _canon_man(w, v, i):
    return [[number(v.g[a, b]) for b in range(v.n)] for a in range(v.n)]


CANON['man'] = _canon_man
SAME['man'] = SAME['gram']


def _canon_fld(w, v, i):
    gram = None
    if not v.is_blade_rep and not v.Ga.is_ortho:
        gram = _canon_man(w, v.Ga, i)
    return extract_obj(v.obj, v.Ga, gram)


def flat(F):
    if any(isinstance(v, Jet) for v in F.values()):
        return Patch.at(None, F)
    return F


CANON['fld'] = _canon_fld
SAME['fld'] = lambda a, b: mv_close(flat(a), flat(b))
CANON['flds'] = lambda w, v, i: [_canon_fld(w, x, i) for x in v]
SAME['flds'] = lambda a, b: len(a) == len(b) and all(mv_close(flat(x), flat(y)) for x, y in zip(a, b))


def _at(v):
    if isinstance(v, Jet):
        if v.o < 0:
            raise Undefined
        return v.value()
    return v


CANON['sexpr'] = lambda w, v, i: number(v)
SAME['sexpr'] = lambda a, b: abs(_at(a) - _at(b)) <= mpf(10) ** -18 * max(1, abs(_at(a)), abs(_at(b)))
CANON['sexprs'] = lambda w, v, i: [number(x) for x in v]
SAME['sexprs'] = lambda a, b: len(a) == len(b) and all(SAME['sexpr'](x, y) for x, y in zip(a, b))

# ---------------------------------------------------------------- fields


def _f_make(w, args, p):
    ga = args[0]
    co = cn(ga)
    parts = [ga.mv(to_sympy(e, co)) * ga.mv_blades.flat[all_masks(ga.n).index(m)] if p.get('how') == 'mv' else
             to_sympy(e, co) * ga.mv_blades.flat[all_masks(ga.n).index(m)] for m, e in p['c']]
    r = parts[0]
    for x in parts[1:]:
        r = r + x
    return r


op('f_make', 'man', 'fld', _f_make, lambda r, I, a, p: I.field(p['c']), tags=('calc',))


def _f_vec(w, args, p):
    ga = args[0]
    co = cn(ga)
    return ga.mv(w.inp([to_sympy(e, co) for e in p['c']]), 'vector' if p.get('how') else 1)


op('f_vec', 'man', 'fld', _f_vec, lambda r, I, a, p: I.field([[1 << i, e] for i, e in enumerate(p['c'])]),
   tags=('calc',))


def _kmasks(n, kind):
    if kind == 'scalar':
        return [0]
    if kind in ('vector', 'bivector'):
        return masks_of_grade(n, 1 if kind == 'vector' else 2)
    if kind == 'pseudo':
        return masks_of_grade(n, n)
    par = {'even': 0, 'odd': 1}.get(kind)
    return [m for m in all_masks(n) if par is None or bin(m).count('1') % 2 == par]


def _f_name_ref(r, I, a, p):
    """named components: symbols, or functions of the coordinates"""
    from .world import symval
    out = {}
    for m in _kmasks(I.n, p['kind']):
        sup = ''.join(c for i, c in enumerate(I.coords) if m >> i & 1)
        nm = p['name'] + '__' + sup if sup else p['name']
        if p.get('f'):
            out[m] = jets.undefined_function(nm, [I.env[c] for c in I.coords])
        else:
            out[m] = I.x.const(symval(nm))
    return I.cl.clean(out)


op('f_name', 'man', 'fld', lambda w, a, p: a[0].mv(p['name'], p['kind'], f=bool(p.get('f'))), _f_name_ref, tags=('calc',))
op('f_basis', 'man', 'fld', lambda w, a, p: a[0].mv()[p['i']],
   lambda r, I, a, p: {1 << p['i']: mpf(1)}, tags=('calc',))
op('f_blade', 'man', 'fld', lambda w, a, p: a[0].mv_blades.flat[p['k']],
   lambda r, I, a, p: {all_masks(I.n)[p['k']]: mpf(1)}, tags=('calc',))
# mvr() gives the reciprocal basis with e^i . e_j = delta_ij over the algebra's own (normalised) basis
op('f_recip', 'man', 'fld', lambda w, a, p: a[0].mvr()[p['i']], lambda r, I, a, p: I.cl.clean(
    {m: v * I.s[p['i']] for m, v in I.r[p['i']].items()}), tags=('calc',))
op('f_pos', 'man', 'fld', lambda w, a, p: a[0].mv(a[0].coord_vec), lambda r, I, a, p: {
    1 << i: I.env[c] for i, c in enumerate(I.coords)}, tags=('calc',))

PROD = {'*': ('gp', lambda a, b: a * b), '^': ('wedge', lambda a, b: a ^ b), '|': ('hestenes', lambda a, b: a | b),
        '<': ('lc', lambda a, b: a < b), '>': ('rc', lambda a, b: a > b)}
op('f_bin', 'fld fld', 'fld', lambda w, a, p: a[0] + a[1] if p['m'] == '+' else a[0] - a[1] if p['m'] == '-' else
   PROD[p['m']][1](a[0], a[1]),
   lambda r, I, a, p: I.cl.add(a[0], a[1]) if p['m'] == '+' else I.cl.sub(a[0], a[1]) if p['m'] == '-' else
   getattr(I.cl, PROD[p['m']][0])(a[0], a[1]), tags=('calc',))


def _f_un(w, a, p):
    x, k = a[0], p['k']
    if k == 'grade':
        return x.grade(p['r'])
    if k == 'rev':
        return x.rev()
    if k == 'neg':
        return -x
    if k == 'invol':
        return x.g_invol()
    if k == 'expand':
        return x.expand()
    if k == 'simplify':
        return x.simplify()
    if k == 'trigsimp':
        return x.trigsimp()
    raise ValueError(k)


def _f_un_ref(r, I, a, p):
    x, k = a[0], p['k']
    if k == 'grade':
        return I.cl.grade(x, p['r'])
    if k == 'rev':
        return I.cl.rev(x)
    if k == 'neg':
        return I.cl.scale(x, -1)
    if k == 'invol':
        return I.cl.invol(x)
    return dict(x)


op('f_un', 'fld', 'fld', _f_un, _f_un_ref, tags=('calc',))


def _f_scale(w, a, p):
    s = to_sympy(p['e'], cn(a[0].Ga))
    h = p.get('how')
    return a[0] * s if h == 'r' else a[0] / s if h == 'd' else s * a[0]


op('f_scale', 'fld', 'fld', _f_scale, lambda r, I, a, p: I.cl.clean(
    {m: v * (1 / I.scal(p['e']) if p.get('how') == 'd' else I.scal(p['e'])) for m, v in a[0].items()}), tags=('calc',))

# ---------------------------------------------------------------- first-order derivatives


def rprod(I, m, a, b):
    return getattr(I.cl, PROD[m][0])(a, b)


def _grad_ref(I, F, m, left):
    out = {}
    for k in range(I.n):
        d = I.D(k, F)
        out = I.cl.add(out, rprod(I, m, I.r[k], d) if left else rprod(I, m, d, I.r[k]))
    return out


def _d_grad(w, a, p):
    F, ga = a[0], a[0].Ga
    g, rg = ga.grads() if p.get('how') else (ga.grad, ga.rgrad)
    f = PROD[p['m']][1]
    return f(g, F) if p['left'] else f(F, rg)


op('d_grad', 'fld', 'fld', _d_grad, lambda r, I, a, p: _grad_ref(I, a[0], p['m'], p['left']), tags=('calc', 'deriv'))


def _d_dir(w, a, p):
    v, F, ga = a[0], a[1], a[0].Ga
    if p.get('how') == 'right':
        return F * (ga.rgrad | v)
    return (v | ga.grad) * F


def _d_dir_ref(r, I, a, p):
    out = {}
    if any(bin(m).count('1') != 1 for m in a[0]):
        raise Undefined
    for k in range(I.n):
        c = I.cl.hestenes(a[0], I.r[k]).get(0, mpf(0))
        d = I.D(k, a[1])
        out = I.cl.add(out, {m: v * c for m, v in d.items()})
    return out


op('d_dir', 'fld fld', 'fld', _d_dir, _d_dir_ref, tags=('calc', 'deriv'))


def _d_diff(w, a, p):
    from galgebra.dop import Pdop, Sdop
    F, ga = a[0], a[0].Ga
    x = ga.coords[p['k']]
    h = p.get('how')
    if h == 'diff':
        return F.diff(x)
    if h == 'pdiff':
        return F.pdiff(x)
    if h == 'Pdop':
        return Pdop(x)(F)
    if h == 'Pdop*':
        return Pdop(w.inp({x: 1})) * F
    if h == 'Sdop':
        return Sdop(x)(F)
    return ga.pDiff(F, x)


op('d_diff', 'fld', 'fld', _d_diff, lambda r, I, a, p: I.D(p['k'], a[0]), tags=('calc', 'deriv'))


def _d_list(w, a, p):
    from galgebra.dop import Pdop
    F, ga = a[0], a[0].Ga
    if p.get('how') == 'Pdop':
        return Pdop(w.inp({x: n for x, n in zip(ga.coords, p['o']) if n}))(F)
    return ga.pDiff(F, w.inp(list(p['o'])))


op('d_list', 'fld', 'fld', _d_list, lambda r, I, a, p: I.Dn(p['o'], a[0]), tags=('calc', 'deriv'))


def _d_lap(w, a, p):
    F, ga = a[0], a[0].Ga
    if p.get('left', True):
        return (ga.grad | ga.grad) * F if p.get('m') == '|' else (ga.grad * ga.grad) * F
    return F * (ga.rgrad | ga.rgrad) if p.get('m') == '|' else F * (ga.rgrad * ga.rgrad)


def _lap_ref(r, I, a, p):
    left = p.get('left', True)
    if p.get('m') != '|':
        x = _grad_ref(I, a[0], '*', left)
        return _grad_ref(I, x, '*', left)
    o = op_grad(I, left)
    return op_apply(I, op_mul(I, o, o, '|'), a[0], '*')


op('d_lap', 'fld', 'fld', _d_lap, _lap_ref, tags=('calc', 'deriv', 'flat'))


def _conn(w, a, p):
    """e^j * (D_j blade) or (D_j blade) * e^j through the cached connections"""
    ga = a[0]
    b = ga.blades.flat[p['k']]
    return ga.mv(ga.connection(ga.r_symbols[p['i']], b, p['m'], p['left']))


def _conn_ref(r, I, a, p):
    if I.ortho is False or I.constant:
        raise Undefined
    out = {}
    for j in range(I.n):
        d = I.dblade(j, all_masks(I.n)[p['k']])
        out = I.cl.add(out, rprod(I, p['m'], I.r[j], d) if p['left'] else rprod(I, p['m'], d, I.r[j]))
    return out


op('conn', 'man', 'fld', _conn, _conn_ref, tags=('calc', 'deriv'), raises=True)


def _dblade_ref(r, I, a, p):
    if I.constant:
        raise Undefined             # constant metric: the library keeps no derivatives of the basis
    return I.dblade(p['i'], all_masks(I.n)[p['k']])


op('dblade', 'man', 'fld', lambda w, a, p: a[0].mv(a[0].blade_derivation(
    a[0].blades.flat[p['k']], p['i'] if p.get('how') else a[0].coords[p['i']])),
   _dblade_ref, tags=('calc', 'deriv'), raises=True)


def _chris(w, a, p):
    G = a[0].Christoffel_symbols(mode=p['mode'])
    return [G[i][j][k] for i in a[0].n_range for j in a[0].n_range for k in a[0].n_range] if G is not None else [0] * a[0].n ** 3


def _chris_ref(r, I, a, p):
    if I.norm:
        raise Undefined
    n = I.n
    out = []
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if p['mode'] == 2:
                    out.append(I.G[i][j][k])
                else:
                    t = I.x.const(0)
                    for l_ in range(n):
                        t = t + I.G[i][j][l_] * I.g[l_][k]
                    out.append(t)
    return out


op('chris', 'man', 'sexprs', _chris, _chris_ref, tags=('calc', 'deriv'))
op('m_ginv', 'man', 'sexprs', lambda w, a, p: list(a[0].g_inv), lambda r, I, a, p: [
    I.gi[i][j] * I.s[i] * I.s[j] for i in range(I.n) for j in range(I.n)], tags=('calc',))

# ---------------------------------------------------------------- operators: {'cmp': bool, 't': {alpha: field}}


def aadd(a, b):
    return tuple(x + y for x, y in zip(a, b))


def oclean(I, t):
    out = {}
    for a, c in t.items():
        c = I.cl.clean(c)
        if c:
            out[a] = c
    return out


def op_grad(I, left):
    return {'cmp': not left, 't': {tuple(int(j == k) for j in range(I.n)): I.r[k] for k in range(I.n)}}


def op_apply(I, D, F, m):
    out = {}
    for al, c in D['t'].items():
        d = I.Dn(al, F)
        out = I.cl.add(out, rprod(I, m, d, c) if D['cmp'] else rprod(I, m, c, d))
    return out


def op_add(I, D, E, s=1):
    if D['cmp'] != E['cmp']:
        raise Undefined
    t = {a: dict(c) for a, c in D['t'].items()}
    for a, c in E['t'].items():
        t[a] = I.cl.add(t.get(a, {}), c, s)
    return {'cmp': D['cmp'], 't': oclean(I, t)}


def op_d(I, k, t):
    """D_k composed with the operator t: {alpha: coef}"""
    out = {}
    one = tuple(int(j == k) for j in range(I.n))
    for al, c in t.items():
        out[al] = I.cl.add(out.get(al, {}), I.D(k, c))
        b = aadd(al, one)
        out[b] = I.cl.add(out.get(b, {}), c)
    return out


def op_mul(I, D, E, m):
    """right-acting: (D m E) F = D m (E F) with m between the coefficients; left-acting: mirrored"""
    if D['cmp'] != E['cmp']:
        raise Undefined
    outer, inner = (E, D) if D['cmp'] else (D, E)
    out = {}
    for al, c in outer['t'].items():
        t = inner['t']
        for k, n in enumerate(al):
            for _ in range(n):
                t = op_d(I, k, t)
        for be, d in t.items():
            x = rprod(I, m, d, c) if D['cmp'] else rprod(I, m, c, d)
            out[be] = I.cl.add(out.get(be, {}), x)
    return {'cmp': D['cmp'], 't': oclean(I, out)}


def op_map(I, D, f):
    return {'cmp': D['cmp'], 't': oclean(I, {a: f(c) for a, c in D['t'].items()})}


def op_flat(D):
    out = {}
    for a, c in D['t'].items():
        c = flat(c)
        if c:
            out[a] = c
    return D['cmp'], out


def _canon_dopr(w, v, i):
    """what the operator does, read off its public terms"""
    if not hasattr(v, 'cmpflg'):
        raise TypeError('not an operator: %r' % (v,))
    ga = v.Ga
    t = {}
    for c, pd in v.terms:
        al = tuple(pd.pdiffs.get(x, 0) for x in ga.coords)
        if sum(al) != sum(pd.pdiffs.values()):
            raise ValueError('derivative by a foreign variable %s' % (pd.pdiffs,))
        d = t.setdefault(al, {})
        for m, x in _canon_fld(w, c, i).items():
            d[m] = d.get(m, 0) + x
    return {'cmp': bool(v.cmpflg), 't': {a: {m: x for m, x in c.items() if abs(x) > TINY} for a, c in t.items()}}


def _same_dopr(a, b):
    (ca, ta), (cb, tb) = op_flat(a), op_flat(b)
    return ca == cb and all(mv_close(ta.get(k, {}), tb.get(k, {})) for k in set(ta) | set(tb))


CANON['dopr'] = _canon_dopr
SAME['dopr'] = _same_dopr

def _vderiv(w, ga, p):
    """derivative by a multivector with coordinates for components, from that multivector or from the list"""
    x = ga.coords
    if p['form'] == 'seq':
        o = dict((m, k) for m, k in p['made'])
        return ga.make_grad(w.inp([x[o[1 << i]] if 1 << i in o else 0 for i in range(ga.n)]), cmpflg=not p['left'])
    bl = ga.mv_blades.flat
    ms = all_masks(ga.n)
    v = ga.mv(0)
    for m, k in p['made']:
        v = v + x[k] * bl[ms.index(m)]
    return ga.make_grad(v, cmpflg=not p['left']) if p['form'] == 'mv' else ga.make_grad(v, not p['left'])


def recip_blade(I, m):
    """reciprocal of a basis blade: reversed product of the reciprocal vectors"""
    out = None
    for k in range(I.n):
        if m >> k & 1:
            out = I.r[k] if out is None else I.cl.wedge(I.r[k], out)
    return out


def _o_grad_ref(r, I, a, p):
    if not p.get('made'):
        return op_grad(I, p['left'])
    if I.norm:
        raise Undefined
    t = {}
    for m, k in p['made']:
        al = tuple(int(j == k) for j in range(I.n))
        t[al] = I.cl.add(t.get(al, {}), recip_blade(I, m))
    return {'cmp': not p['left'], 't': oclean(I, t)}


op('o_grad', 'man', 'dopr', lambda w, a, p: _vderiv(w, a[0], p) if p.get('made') else
   (a[0].grads()[0 if p['left'] else 1]) if p.get('how') else
   (a[0].grad if p['left'] else a[0].rgrad), _o_grad_ref, tags=('dop',))


def _o_make(w, a, p):
    from galgebra.dop import Pdop, Sdop
    from galgebra.mv import Dop
    ga = a[0]
    co = cn(ga)

    def mv(c):
        return _f_make(w, [ga], {'c': c})

    def pd(al):
        return Pdop(w.inp({x: n for x, n in zip(ga.coords, al) if n}))
    cmp_ = p['cmp']
    h = p.get('how')
    ts = p['t']
    if h == 'sdop':
        # (Sdop, Mv) pairs: scalar operators times constant blades
        return Dop(w.inp([(Sdop([(to_sympy(c[0][1], co), pd(al))]), ga.mv_blades.flat[all_masks(ga.n).index(c[0][0])])
                          for al, c in ts]), ga=ga, cmpflg=cmp_)
    if h == 'lists':
        return ga.dop(w.inp([mv(c) for al, c in ts]), w.inp([pd(al) for al, c in ts]), cmpflg=cmp_)
    return ga.dop(w.inp([(mv(c), pd(al)) for al, c in ts]), cmpflg=cmp_)


def _o_make_ref(r, I, a, p):
    t = {}
    for al, c in p['t']:
        f = I.field(c[:1] if p.get('how') == 'sdop' else c)
        t[tuple(al)] = I.cl.add(t.get(tuple(al), {}), f)
    return {'cmp': p['cmp'], 't': oclean(I, t)}


op('o_make', 'man', 'dopr', _o_make, _o_make_ref, tags=('dop',))
op('o_bin', 'dopr dopr', 'dopr', lambda w, a, p: a[0] + a[1] if p['m'] == '+' else a[0] - a[1],
   lambda r, I, a, p: op_add(I, a[0], a[1], 1 if p['m'] == '+' else -1), tags=('dop',), raises=True)
op('o_neg', 'dopr', 'dopr', lambda w, a, p: -a[0],
   lambda r, I, a, p: op_map(I, a[0], lambda c: I.cl.scale(c, -1)), tags=('dop',))


def _o_scale(w, a, p):
    s = to_sympy(p['e'], cn(a[0].Ga))
    return s * a[0] if p.get('how') == 'l' else a[0] * s if p.get('how') == 'r' else a[0] / s


def _o_scale_ref(r, I, a, p):
    s = I.scal(p['e'])
    if p.get('how') not in ('l', 'r'):
        s = 1 / s
    return op_map(I, a[0], lambda c: I.cl.clean({m: v * s for m, v in c.items()}))


# on the side where the operator does not act
op('o_scale', 'dopr', 'dopr', _o_scale, _o_scale_ref, tags=('dop',))
op('o_mv', 'dopr fld', 'dopr', lambda w, a, p: PROD[p['m']][1](a[0], a[1]) if a[0].cmpflg else PROD[p['m']][1](a[1], a[0]),
   lambda r, I, a, p: op_map(I, a[0], lambda c: rprod(I, p['m'], c, a[1]) if a[0]['cmp'] else rprod(I, p['m'], a[1], c)),
   tags=('dop',))
op('o_addmv', 'dopr fld', 'dopr', lambda w, a, p: {'+': lambda: a[0] + a[1], 'r+': lambda: a[1] + a[0],
                                                    '-': lambda: a[0] - a[1], 'r-': lambda: a[1] - a[0]}[p['m']](),
   lambda r, I, a, p: op_add(I, op_map(I, a[0], lambda c: I.cl.scale(c, -1)) if p['m'] == 'r-' else a[0],
                             {'cmp': a[0]['cmp'], 't': {(0,) * I.n: a[1]}}, -1 if p['m'] == '-' else 1), tags=('dop',))
op('o_adds', 'dopr', 'dopr', lambda w, a, p: (lambda s: {'+': lambda: a[0] + s, 'r+': lambda: s + a[0], '-': lambda: a[0] - s,
                                                        'r-': lambda: s - a[0]}[p['m']]())(
    to_sympy(p['e'], cn(a[0].Ga))),
   lambda r, I, a, p: op_add(I, op_map(I, a[0], lambda c: I.cl.scale(c, -1)) if p['m'] == 'r-' else a[0],
                             {'cmp': a[0]['cmp'], 't': {(0,) * I.n: I.cl.clean({0: I.scal(p['e'])})}},
                             -1 if p['m'] == '-' else 1), tags=('dop',))
op('o_mul', 'dopr dopr', 'dopr', lambda w, a, p: PROD[p['m']][1](a[0], a[1]),
   lambda r, I, a, p: op_mul(I, a[0], a[1], p['m']), tags=('dop', 'flat'))
op('o_apply', 'dopr fld', 'fld', lambda w, a, p: PROD[p['m']][1](a[1], a[0]) if a[0].cmpflg else PROD[p['m']][1](a[0], a[1]),
   lambda r, I, a, p: op_apply(I, a[0], a[1], p['m']), tags=('dop',))
op('o_applys', 'dopr', 'fld', lambda w, a, p: (lambda s: s * a[0] if a[0].cmpflg else a[0] * s)(
    to_sympy(p['e'], cn(a[0].Ga))),
   lambda r, I, a, p: op_apply(I, a[0], I.cl.clean({0: I.scal(p['e'])}), '*'), tags=('dop',))


def _o_re(w, a, p):
    from functools import reduce
    D, k = a[0], p['k']
    if k == 'simplify':
        return D.simplify()
    if k == 'TSimplify':
        return D.TSimplify()
    if k == 'consolidate':
        return D.consolidate_coefs()
    if k == 'components':
        c = D.components()
        return reduce(lambda x, y: x + y, c) if c else D
    if k == 'expand_mv':
        from galgebra.mv import Dop, Mv
        return Dop([(s, Mv(b, ga=D.Ga)) for s, b in D.Dop_mv_expand()], ga=D.Ga, cmpflg=D.cmpflg)
    if k == 'copy':
        import copy
        return copy.copy(D)
    if k == 'print':
        from galgebra import printer
        str(D), printer.latex(D), repr(D), str(D.Fmt(2))
        return D
    if k == 'eq':
        D == D + D, D == -D, D != D
        return D
    if k == 'is_scalar':
        D.is_scalar()
        return D
    raise ValueError(k)


REWRITES = ['simplify', 'TSimplify', 'consolidate', 'components', 'expand_mv', 'copy', 'print', 'eq', 'is_scalar']
op('o_re', 'dopr', 'dopr', _o_re, lambda r, I, a, p: {'cmp': a[0]['cmp'], 't': {k: dict(v) for k, v in a[0]['t'].items()}},
   tags=('dop',))


def _o_eq_ref(r, I, a, p):
    if a[0]['cmp'] != a[1]['cmp']:
        raise Undefined
    if p.get('same'):
        return True
    d = op_add(I, a[0], a[1], -1)
    if not d['t']:
        raise Undefined             # equal at the point to this order: decided by the 'same' form only
    return False


op('o_eq', 'dopr dopr', 'bool', lambda w, a, p: bool(a[0] + a[1] == a[1] + a[0] and a[0] == a[0] and not a[0] != a[0])
   if p.get('same') else bool(a[0] == a[1]), _o_eq_ref, tags=('dop',))


def _o_pd(w, a, p):
    """a scalar derivative in front of an operator"""
    from galgebra.dop import Pdop, Sdop
    x = a[0].Ga.coords[p['k']]
    return Sdop(x)(a[0]) if p.get('how') else Pdop(x) * a[0]


op('o_pd', 'dopr', 'dopr', _o_pd, lambda r, I, a, p: {'cmp': a[0]['cmp'], 't': oclean(I, op_d(I, p['k'], a[0]['t']))},
   tags=('dop',))

# ---------------------------------------------------------------- scalar operators {alpha: jet}
CANON['sop'] = lambda w, v, i: _canon_sop(w, v, i)


def _canon_sop(w, v, i):
    co = w.val[w.alg_of[i]].coords
    terms = v.terms if hasattr(v, 'terms') else [(1, v)]
    out = {}
    for c, pd in terms:
        al = tuple(pd.pdiffs.get(x, 0) for x in co)
        out[al] = out.get(al, 0) + number(c)
    return {a: x for a, x in out.items() if abs(x) > TINY}


def _same_sop(a, b):
    za = {k: _at(v) for k, v in a.items()}
    zb = {k: _at(v) for k, v in b.items()}
    return all(abs(za.get(k, 0) - zb.get(k, 0)) <= mpf(10) ** -18 * max(1, abs(za.get(k, 0)), abs(zb.get(k, 0)))
               for k in set(za) | set(zb))


SAME['sop'] = _same_sop


def sclean(t):
    return {a: c for a, c in t.items() if abs(c) > TINY}


def _s_make(w, a, p):
    from galgebra.dop import Pdop, Sdop
    ga = a[0]
    co = cn(ga)

    def pd(al):
        return Pdop(w.inp({x: n for x, n in zip(ga.coords, al) if n}))
    h = p.get('how')
    ts = p['t']
    if h == 'pdop':
        return pd(ts[0][0])
    if h == 'sym':
        return Sdop(ga.coords[list(ts[0][0]).index(1)])
    if h == 'rmul':
        r = to_sympy(ts[0][1], co) * pd(ts[0][0])
        for al, c in ts[1:]:
            r = r + to_sympy(c, co) * pd(al)
        return r
    if h == 'lists':
        return Sdop(w.inp([to_sympy(c, co) for al, c in ts]), w.inp([pd(al) for al, c in ts]))
    return Sdop(w.inp([(to_sympy(c, co), pd(al)) for al, c in ts]))


def _s_make_ref(r, I, a, p):
    out = {}
    h = p.get('how')
    for al, c in p['t'][:1] if h in ('pdop', 'sym') else p['t']:
        v = I.x.const(1) if h in ('pdop', 'sym') else I.scal(c)
        out[tuple(al)] = out.get(tuple(al), 0) + v
    return sclean(out)


op('s_make', 'man', 'sop', _s_make, _s_make_ref, tags=('dop',))


def _s_bin(w, a, p):
    from galgebra.dop import Pdop, Sdop
    x, y = [Sdop([(sympy.Integer(1), v)]) if isinstance(v, Pdop) else v for v in a]
    return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: a[0] * y, 'call': lambda: x(y)}[p['m']]()


def _s_bin_ref(r, I, a, p):
    x, y = a
    if p['m'] in '+-':
        s = 1 if p['m'] == '+' else -1
        out = dict(x)
        for k, v in y.items():
            out[k] = out.get(k, 0) + s * v
        return sclean(out)
    out = {}
    for al, c in x.items():
        t = dict(y)
        for k, n in enumerate(al):
            for _ in range(n):
                u = {}
                for be, d in t.items():
                    d = const(I.x, d)
                    u[be] = u.get(be, 0) + d.d(k)
                    b = aadd(be, tuple(int(j == k) for j in range(I.n)))
                    u[b] = u.get(b, 0) + d
                t = u
        for be, d in t.items():
            out[be] = out.get(be, 0) + c * d
    return sclean(out)


op('s_bin', 'sop sop', 'sop', _s_bin, _s_bin_ref, tags=('dop',))


def _s_un(w, a, p):
    from galgebra.dop import Pdop, Sdop
    x, k = a[0], p['k']
    x = Sdop([(sympy.Integer(1), x)]) if isinstance(x, Pdop) else x
    s = to_sympy(p['e'], [str(c) for c in w.val[w.alg_of[w.cur]].coords]) if 'e' in p else None
    return {'neg': lambda: -x, 'scale': lambda: s * x, '+s': lambda: x + s, 's+': lambda: s + x, '-s': lambda: x - s,
            's-': lambda: s - x, 'simplify': lambda: x.simplify(), 'TSimplify': lambda: x.TSimplify(),
            'consolidate': lambda: Sdop.consolidate_coefs(x), 'print': lambda: (str(x), repr(x), x)[2],
            'eq': lambda: (x == x + 1, x == -x, x)[2]}[k]()


def _s_un_ref(r, I, a, p):
    x, k = a[0], p['k']
    z = (0,) * I.n
    if k in ('simplify', 'TSimplify', 'consolidate', 'print', 'eq'):
        return dict(x)
    if k == 'neg':
        return {q: -1 * v for q, v in x.items()}
    s = I.scal(p['e'])
    if k == 'scale':
        return sclean({q: v * s for q, v in x.items()})
    sg = -1 if k == 's-' else 1
    out = {q: sg * v for q, v in x.items()}
    out[z] = out.get(z, 0) + (-1 * s if k == '-s' else s)
    return sclean(out)


op('s_un', 'sop', 'sop', _s_un, _s_un_ref, tags=('dop',))


def _s_expr(w, a, p):
    s = to_sympy(p['e'], [str(c) for c in w.val[w.alg_of[w.cur]].coords])
    return a[0] * s if p.get('how') else a[0](s)


def _s_expr_ref(r, I, a, p):
    f = I.scal(p['e'])
    out = I.x.const(0)
    for al, c in a[0].items():
        d = f
        for k, n in enumerate(al):
            for _ in range(n):
                d = d.d(k)
        out = out + c * d
    return out


op('s_expr', 'sop', 'sexpr', _s_expr, _s_expr_ref, tags=('dop',))
op('s_fld', 'sop fld', 'fld', lambda w, a, p: a[0] * a[1] if p.get('how') else a[0](a[1]),
   lambda r, I, a, p: _s_fld_ref(I, a[0], a[1]), tags=('dop',))


def _s_fld_ref(I, x, F):
    out = {}
    for al, c in x.items():
        out = I.cl.add(out, {m: v * c for m, v in I.Dn(al, F).items()})
    return out


op('s_dop', 'sop dopr', 'dopr', lambda w, a, p: a[0] * a[1] if p.get('how') else a[0](a[1]),
   lambda r, I, a, p: op_mul(I, {'cmp': False, 't': {al: {0: c} for al, c in a[0].items()}},
                             dict(a[1], cmp=False), '*') if not a[1]['cmp'] else
   {'cmp': True, 't': op_mul(I, {'cmp': False, 't': {al: {0: c} for al, c in a[0].items()}},
                             dict(a[1], cmp=False), '*')['t']}, tags=('dop',))


# ---------------------------------------------------------------- noise on the same algebra
def _f_text(w, a, p):
    from galgebra import printer
    v = a[0]
    return {'str': lambda: str(v), 'latex': lambda: printer.latex(v), 'repr': lambda: repr(v),
            'fmt': lambda: str(v.Fmt(p.get('f', 2))), 'fmtlatex': lambda: printer.latex(v.Fmt(p.get('f', 2))),
            'titled': lambda: str(v.Fmt(p.get('f', 2), 'T')) + printer.latex(v.Fmt(1, 'T'))}[p['k']]()


op('f_text', 'fld', 'str', _f_text, tags=('text', 'noise'))
op('o_text', 'dopr', 'str', _f_text, tags=('text', 'noise'))


def _c_fail(w, a, p):
    """calls that must be refused"""
    from galgebra.dop import Pdop, Sdop
    from galgebra.mv import Dop
    F, ga = a[0], a[0].Ga
    k = p['k']
    x = ga.coords[0]
    calls = {
        'dopmix': lambda: ga.grad + ga.rgrad, 'dopmul': lambda: ga.grad * ga.rgrad, 'dopdiv': lambda: ga.grad / F,
        'dopdivd': lambda: ga.grad / ga.grad, 'pdoparg': lambda: Pdop('x'), 'sdoparg': lambda: Sdop(3),
        'sdoplen': lambda: Sdop([1], [Pdop(x), Pdop(x)]), 'doplen': lambda: Dop([F], [], ga=ga),
        'dopterms': lambda: Dop([(1, 2)], ga=ga), 'dopga': lambda: Dop([], ga=None), 'smlen': lambda: ga.sm([1] * (ga.n + 1), (x,)),
        'sddiff': lambda: Pdop(x)('a'), 'mvlist': lambda: ga.mv([1] * (ga.n + 2), 'vector'), 'ltlist': lambda: ga.lt('q', mode='z'),
        'mlt': lambda: ga.Mlt(3), 'connmode': lambda: ga.connection(ga.r_symbols[0], ga.basis[0], '@', True),
        'pdiffx': lambda: Pdop({x: 'n'})(F), 'grades': lambda: F.grade('x') if False else F ** S_half()}
    try:
        calls[k]()
    except Exception:
        return True
    return False


def S_half():
    return sympy.Rational(1, 2)


CFAIL = ['dopmix', 'dopmul', 'dopdiv', 'dopdivd', 'pdoparg', 'sdoparg', 'sdoplen', 'doplen', 'dopterms', 'dopga', 'smlen',
         'sddiff', 'mvlist', 'ltlist', 'mlt', 'connmode', 'pdiffx']
op('c_fail', 'fld', 'none', _c_fail, tags=('noise',))


# ---------------------------------------------------------------- texts of values for messages
def _show(f):
    def g(v):
        try:
            return f(v)
        except Undefined:
            return 'unknown'
    return g


def _n(x):
    import mpmath
    return mpmath.nstr(_at(x), 12)


SHOW['fld'] = _show(lambda v: mv_str(flat(v)))
SHOW['flds'] = _show(lambda v: '[' + ', '.join(mv_str(flat(x)) for x in v) + ']')
SHOW['sexpr'] = _show(_n)
SHOW['sexprs'] = _show(lambda v: '[' + ', '.join(_n(x) for x in v) + ']')
SHOW['man'] = lambda v: str([[_n(x) for x in row] for row in v])
SHOW['sop'] = _show(lambda v: '{' + ', '.join('%s: %s' % (a, _n(v[a])) for a in sorted(v)) + '}')
SHOW['dopr'] = _show(lambda v: ('left-acting ' if v['cmp'] else '') + '{' + ', '.join(
    '%s: %s' % (a, mv_str(c)) for a, c in sorted(op_flat(v)[1].items())) + '}')
