"""Linear and multilinear maps: {'cols': [image of each basis vector]} and {'n': slots, 'v': {indices: field}}."""
import copy
import itertools

import sympy
from mpmath import mpf

from . import jets
from .jets import const, to_sympy
from .ops_alg import all_masks
from .ops_calc import PROD, _at, _canon_man, cn, flat, rprod
from .refmodel import TINY, Undefined, mv_close, mv_str
from .world import CANON, SAME, SHOW, extract_obj, number, op, symval


def _field(w, v, ga, i):
    """a library result (multivector or expression) as a field"""
    if not hasattr(v, 'obj'):
        v = ga.mv(v)
    if v.Ga != ga:
        raise ValueError('value of another algebra')
    gram = _canon_man(w, ga, i) if not v.is_blade_rep and not ga.is_ortho else None
    return extract_obj(v.obj, ga, gram)


def vec(I, col):
    return I.cl.clean({1 << i: c for i, c in enumerate(col)})


def comp(F, i):
    return F.get(1 << i, mpf(0))


# ---------------------------------------------------------------- linear maps
CANON['lt'] = lambda w, v, i: {'cols': [_field(w, v(e), v.Ga, i) for e in v.Ga.mv()]}
SAME['lt'] = lambda a, b: all(mv_close(flat(x), flat(y)) for x, y in zip(a['cols'], b['cols']))


def lapply(I, L, F):
    return I.cl.outermorphism(L['cols'], F)


def lmat(I, L):
    return [[comp(L['cols'][j], i) for j in range(I.n)] for i in range(I.n)]


def from_mat(I, M):
    return {'cols': [vec(I, [M[i][j] for i in range(I.n)]) for j in range(I.n)]}


def matmul(A, B):
    n = len(A)
    out = []
    for i in range(n):
        out.append([])
        for j in range(n):
            t = mpf(0)
            for k in range(n):
                t = t + A[i][k] * B[k][j]
            out[-1].append(t)
    return out


def gi_lib(I):
    return [[I.gi[i][j] * I.s[i] * I.s[j] for j in range(I.n)] for i in range(I.n)]


def ldet(I, L):
    full = (1 << I.n) - 1
    return lapply(I, L, {full: mpf(1)}).get(full, mpf(0))


def _l_make(w, a, p):
    from galgebra.lt import Lt
    ga = a[0]
    co = cn(ga)
    n = ga.n
    M = [[to_sympy(e, co) for e in row] for row in p['m']]      # M[i][j]: coefficient of e_i in the image of e_j
    h = p['how']
    if h in ('matrix', 'imatrix'):
        m = sympy.Matrix(M)
        x = w.inp(m) if h == 'matrix' else sympy.ImmutableMatrix(m)
    elif h == 'rows':
        x = w.inp([[M[i][j] for i in range(n)] for j in range(n)])
    else:
        e = ga.mv()
        im = [sum((M[i][j] * e[i] for i in range(n)), ga.mv(0)) for j in range(n)]
        if h == 'vectors':
            x = w.inp(im)
        elif h == 'mvdict':
            x = w.inp({b: v for b, v in zip(ga.basis, im)})
        elif h == 'partial':
            x = w.inp({b: v.obj for b, v in zip(ga.basis, im) if v.obj != 0})
        else:
            x = w.inp({b: v.obj for b, v in zip(ga.basis, im)})
    return Lt(x, ga=ga) if p.get('direct') else ga.lt(x)


op('l_make', 'man', 'lt', _l_make, lambda r, I, a, p: from_mat(I, [[I.scal(e) for e in row] for row in p['m']]), tags=('lt',))


def _l_name(w, a, p):
    kw = {'mode': p['mode']} if p['mode'] != 'g' or p.get('say') else {}
    if p.get('f'):
        kw['f'] = True
    return a[0].lt(p['name'], **kw)


def _l_name_ref(r, I, a, p):
    n = I.n

    def entry(nm):
        return jets.undefined_function(nm, [I.env[c] for c in I.coords]) if p.get('f') else I.x.const(symval(nm))
    if p['mode'] == 'g':
        return from_mat(I, [[entry('{%s__%s}_%s' % (p['name'], I.coords[i], I.coords[j])) for j in range(n)] for i in range(n)])
    A = [[mpf(0)] * n for _ in range(n)]
    k = 1
    for i in range(n):
        for j in range(i if p['mode'] == 's' else i + 1, n):
            e = entry('%s_%d' % (p['name'], k))
            k += 1
            A[i][j] = e
            A[j][i] = e if p['mode'] == 's' else -1 * e
    return from_mat(I, matmul(gi_lib(I), A))


op('l_name', 'man', 'lt', _l_name, _l_name_ref, tags=('lt',))


def _l_fun(w, a, p):
    ga = a[0]
    k = p['k']
    s = to_sympy(p.get('s', 1), cn(ga))
    if k == 'outer':
        u, v = a[1], a[2]
        return ga.lt(lambda x: (x | u) * v + s * x)
    if k == 'biv':
        B = a[1]
        return ga.lt(lambda x: s * (x < B))
    if k == 'refl':
        u = a[1]
        return ga.lt(lambda x: -(u * x * u))
    return ga.lt(lambda x: s * x)


def _l_fun_ref(r, I, a, p):
    cl = I.cl
    s = I.scal(p.get('s', 1))

    def sc(F, c):
        return cl.clean({m: v * c for m, v in F.items()})
    out = []
    for j in range(I.n):
        e = {1 << j: mpf(1)}
        k = p['k']
        if k == 'outer':
            d = cl.hestenes(e, a[1]).get(0, mpf(0))
            o = cl.add(sc(a[2], d), sc(e, s))
        elif k == 'biv':
            o = sc(cl.lc(e, a[1]), s)
        elif k == 'refl':
            o = sc(cl.gp(cl.gp(a[1], e), a[1]), -1)
        else:
            o = sc(e, s)
        if any(bin(m).count('1') != 1 for m in o):
            raise Undefined
        out.append(o)
    return {'cols': out}


op('l_fun', 'man', 'lt', _l_fun, _l_fun_ref, tags=('lt',))


def _l_vers_ref(r, I, a, p):
    """V (a product of vectors): x -> V.g_invol() x V.inv()"""
    cl, V = I.cl, a[0]
    rev = cl.rev(V)
    q = cl.gp(V, rev)
    if any(m and abs(v) > TINY for m, v in q.items()) or 0 not in q:
        raise Undefined
    if all(abs(_at(v)) < TINY for v in q.values()):
        raise Undefined
    inv = {m: v / q[0] for m, v in rev.items()}
    g = cl.invol(V)
    return {'cols': [cl.grade(cl.gp(cl.gp(g, {1 << j: mpf(1)}), inv), 1) for j in range(I.n)]}


op('l_vers', 'fld', 'lt', lambda w, a, p: a[0].Ga.lt(a[0]), _l_vers_ref, tags=('lt',))


def _l_bin(w, a, p):
    return {'+': lambda: a[0] + a[1], '-': lambda: a[0] - a[1], '*': lambda: a[0] * a[1]}[p['m']]()


def _l_bin_ref(r, I, a, p):
    A, B = a
    if p['m'] == '*':
        return {'cols': [lapply(I, A, c) for c in B['cols']]}
    return {'cols': [I.cl.add(x, y, 1 if p['m'] == '+' else -1) for x, y in zip(A['cols'], B['cols'])]}


op('l_bin', 'lt lt', 'lt', _l_bin, _l_bin_ref, tags=('lt',))


def _l_scale(w, a, p):
    s = to_sympy(p['e'], cn(a[0].Ga))
    return {'l': lambda: s * a[0], 'r': lambda: a[0] * s, 'mv': lambda: a[0] * a[0].Ga.mv(s)}[p['how']]()


op('l_scale', 'lt', 'lt', _l_scale, lambda r, I, a, p: {'cols': [I.cl.clean({m: v * I.scal(p['e']) for m, v in c.items()})
                                                                for c in a[0]['cols']]}, tags=('lt',))
op('l_adj', 'lt', 'lt', lambda w, a, p: a[0].adj(), lambda r, I, a, p: from_mat(I, matmul(matmul(
    gi_lib(I), [list(c) for c in zip(*lmat(I, a[0]))]), I.gram)), tags=('lt',))


def _l_inv_ref(r, I, a, p):
    if abs(_at(ldet(I, a[0]))) < mpf(10) ** -15:
        raise Undefined
    return from_mat(I, jets.inverse([[const(I.x, v) for v in row] for row in lmat(I, a[0])]))


op('l_inv', 'lt', 'lt', lambda w, a, p: a[0].inv(), _l_inv_ref, tags=('lt',))


def _l_call(w, a, p):
    L, F = a
    h = p.get('how')
    if h == 'obj':
        return L.Ga.mv(L(F, obj=True))
    if h == 'expr':
        return L(F.blade_rep().obj)
    if h == 'base' and not L.Ga.is_ortho:
        return L(F.base_rep())
    return L(F)


op('l_call', 'lt fld', 'fld', _l_call, lambda r, I, a, p: lapply(I, a[0], a[1]), tags=('lt',))
op('l_det', 'lt', 'sexpr', lambda w, a, p: __import__('galgebra.lt').lt.det(a[0]) if p.get('how') else a[0].det(),
   lambda r, I, a, p: ldet(I, a[0]), tags=('lt',))


def _l_tr_ref(r, I, a, p):
    t = mpf(0)
    for i in range(I.n):
        t = t + comp(a[0]['cols'][i], i)
    return t


op('l_tr', 'lt', 'sexpr', lambda w, a, p: a[0].tr(), _l_tr_ref, tags=('lt',))


def _l_matrix(w, a, p):
    M = a[0].matrix()
    if p.get('poke') and isinstance(M, sympy.MutableDenseMatrix):
        N = a[0].matrix()
        M[0, 0] = sympy.Symbol('poked')         # the caller's own copy
        M = N
    return [M[i, j] for i in range(a[0].Ga.n) for j in range(a[0].Ga.n)]


op('l_matrix', 'lt', 'sexprs', _l_matrix, lambda r, I, a, p: [v for row in lmat(I, a[0]) for v in row], tags=('lt',))


def _l_sing_ref(r, I, a, p):
    d = abs(_at(ldet(I, a[0])))
    if TINY < d < mpf(10) ** -12:
        raise Undefined
    return bool(d <= TINY)


op('l_sing', 'lt', 'bool', lambda w, a, p: bool(a[0].is_singular()), _l_sing_ref, tags=('lt',))


def _t(w, a, p):
    from galgebra import printer
    v = a[0]
    return {'str': lambda: str(v), 'latex': lambda: printer.latex(v), 'repr': lambda: repr(v),
            'fmt': lambda: str(v.Fmt(p.get('f', 2))), 'fmtlatex': lambda: printer.latex(v.Fmt(p.get('f', 2))),
            'titled': lambda: str(v.Fmt(p.get('f', 2), 'T')) + printer.latex(v.Fmt(1, 'T'))}[p['k']]()


op('l_text', 'lt', 'str', _t, tags=('text', 'noise'))

# ---------------------------------------------------------------- multilinear maps


def _canon_mlt(w, v, i):
    ga = v.Ga
    n = v.nargs or 0
    out = {}
    e = ga.mv()
    for ix in itertools.product(range(ga.n), repeat=n):
        F = _field(w, v(*[e[k] for k in ix]), ga, i)
        if F:
            out[ix] = F
    return {'n': n, 'v': out}


CANON['mlt'] = _canon_mlt
SAME['mlt'] = lambda a, b: a['n'] == b['n'] and all(
    mv_close(flat(a['v'].get(k, {})), flat(b['v'].get(k, {}))) for k in set(a['v']) | set(b['v']))


def mfill(I, n, f):
    """n slots, f(basis vectors...) -> field"""
    out = {}
    for ix in itertools.product(range(I.n), repeat=n):
        F = I.cl.clean(f(*[{1 << k: mpf(1)} for k in ix]))
        if F:
            out[ix] = F
    return {'n': n, 'v': out}


def mapply(I, T, args):
    out = {}
    for ix, F in T['v'].items():
        c = mpf(1)
        for k, u in zip(ix, args):
            c = c * comp(u, k)
        out = I.cl.add(out, {m: v * c for m, v in F.items()})
    return out


def _only_vectors(*fs):
    for f in fs:
        if any(bin(m).count('1') != 1 for m in f):
            raise Undefined


FUNS = {   # name -> (slots, field arguments, library function, reference)
    'dotu': (1, 'v', lambda u: lambda a: a | u, lambda c, u: lambda a: c.hestenes(a, u)),
    'muv': (1, 'vv', lambda u, v: lambda a: (a | u) * v, lambda c, u, v: lambda a: c.gp(c.hestenes(a, u), v)),
    'ident': (1, '', lambda: lambda a: 1 * a, lambda c: lambda a: a),
    'mulf': (1, 'f', lambda u: lambda a: a * u, lambda c, u: lambda a: c.gp(a, u)),
    'dot': (2, '', lambda: lambda a, b: a | b, lambda c: lambda a, b: c.hestenes(a, b)),
    'gp': (2, '', lambda: lambda a, b: a * b, lambda c: lambda a, b: c.gp(a, b)),
    'wedge': (2, '', lambda: lambda a, b: a ^ b, lambda c: lambda a, b: c.wedge(a, b)),
    'dyad': (2, 'vv', lambda u, v: lambda a, b: (a | u) * (v | b),
             lambda c, u, v: lambda a, b: c.gp(c.hestenes(a, u), c.hestenes(v, b))),
    'dotv': (2, 'v', lambda u: lambda a, b: (a | b) * u, lambda c, u: lambda a, b: c.gp(c.hestenes(a, b), u)),
    'wedgef': (2, 'f', lambda u: lambda a, b: (a ^ b) < u, lambda c, u: lambda a, b: c.lc(c.wedge(a, b), u)),
    'tri': (3, 'v', lambda u: lambda a, b, c_: (a | b) * (c_ | u),
            lambda c, u: lambda a, b, d: c.gp(c.hestenes(a, b), c.hestenes(d, u))),
    'vol': (3, '', lambda: lambda a, b, c_: a ^ b ^ c_, lambda c: lambda a, b, d: c.wedge(c.wedge(a, b), d)),
}


def _m_make(w, a, p):
    from galgebra.lt import Mlt
    ga = a[0]
    k = p['k']
    co = cn(ga)
    mk = ga.Mlt if p.get('meth') and hasattr(ga, 'Mlt') else lambda *x, **kw: Mlt(x[0], ga, *x[1:], **kw)
    if k in ('vec', 'lt'):
        return mk(a[1])
    if k == 'name':
        return mk(p['name'], nargs=p['n'], **({'fct': True} if p.get('f') else {}))
    if k == 'fun':
        return mk(FUNS[p['f']][2](*a[1:]))
    e = sympy.Integer(0)
    for c, ix in p['t']:
        t = to_sympy(c, co)
        for s, j in enumerate(ix):
            t = t * sympy.Symbol('a_%d__%s' % (s + 1, _sup(ga, j)), real=True)
        e = e + t
    return mk(e, nargs=p['n'])


def _sup(ga, j):
    return ga.basis_super_scripts[j]


def _m_make_ref(r, I, a, p):
    k = p['k']
    cl = I.cl
    if k == 'vec':
        if not flat(a[1]):              # the zero multivector is not known to be a vector
            raise Undefined
        _only_vectors(a[1])
        return mfill(I, 1, lambda x: cl.hestenes(a[1], x))
    if k == 'lt':
        return mfill(I, 2, lambda x, y: cl.hestenes(x, lapply(I, a[1], y)))
    if k == 'name':
        out = {}
        for ix in itertools.product(range(I.n), repeat=p['n']):
            nm = '%s_%s' % (p['name'], ''.join(I.coords[i] for i in ix))
            out[ix] = {0: jets.undefined_function(nm, [I.env[c] for c in I.coords]) if p.get('f') else I.x.const(symval(nm))}
        return {'n': p['n'], 'v': out}
    if k == 'fun':
        n, kinds, _, f = FUNS[p['f']]
        _only_vectors(*[u for u, q in zip(a[1:], kinds) if q == 'v'])
        return mfill(I, n, f(cl, *a[1:]))
    out = {}
    for c, ix in p['t']:
        out[tuple(ix)] = cl.add(out.get(tuple(ix), {}), {0: I.scal(c)})
    return {'n': p['n'], 'v': {q: v for q, v in ((q, cl.clean(v)) for q, v in out.items()) if v}}


op('m_make', 'man', 'mlt', _m_make, _m_make_ref, tags=('lt',))


def mclean(I, T):
    return {'n': T['n'], 'v': {k: v for k, v in ((k, I.cl.clean(v)) for k, v in T['v'].items()) if v}}


def _m_call(w, a, p):
    v = a[0](*a[1:])
    return v if hasattr(v, 'obj') else a[0].Ga.mv(v)


def _m_call_ref(r, I, a, p):
    _only_vectors(*a[1:])
    return mapply(I, a[0], a[1:])


op('m_call', 'mlt', 'fld', _m_call, _m_call_ref, tags=('lt',))


def _m_bin(w, a, p):
    x, y = a
    return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '^': lambda: x ^ y, '|': lambda: x | y}[p['m']]()


def _m_bin_ref(r, I, a, p):
    A, B = a
    if p['m'] in '+-':
        if A['n'] != B['n']:
            raise Undefined
        out = {k: dict(v) for k, v in A['v'].items()}
        for k, v in B['v'].items():
            out[k] = I.cl.add(out.get(k, {}), v, 1 if p['m'] == '+' else -1)
        return mclean(I, {'n': A['n'], 'v': out})
    return mclean(I, {'n': A['n'] + B['n'], 'v': {i + j: rprod(I, p['m'], x, y) for i, x in A['v'].items()
                                                  for j, y in B['v'].items()}})


op('m_bin', 'mlt mlt', 'mlt', _m_bin, _m_bin_ref, tags=('lt',))
op('m_scale', 'mlt', 'mlt', lambda w, a, p: a[0] * to_sympy(p['e'], cn(a[0].Ga)), lambda r, I, a, p: mclean(I, {
    'n': a[0]['n'], 'v': {k: {m: x * I.scal(p['e']) for m, x in v.items()} for k, v in a[0]['v'].items()}}), tags=('lt',))


def rbasis(I, k):
    """reciprocal of the library's basis"""
    return {m: v * I.s[k] for m, v in I.r[k].items()}


def _m_contract_ref(r, I, a, p):
    T = a[0]
    i, j = sorted((p['i'], p['j']))
    out = {}
    for ix, F in T['v'].items():
        g = I.cl.hestenes(rbasis(I, ix[j - 1]), I.cl.gp(rbasis(I, ix[i - 1]), F))
        k = tuple(x for q, x in enumerate(ix) if q not in (i - 1, j - 1))
        out[k] = I.cl.add(out.get(k, {}), g)
    return mclean(I, {'n': T['n'] - 2, 'v': out})


op('m_contract', 'mlt', 'mlt', lambda w, a, p: a[0].contract(p['i'], p['j']), _m_contract_ref, tags=('lt',))


def _m_pdiff_ref(r, I, a, p):
    T = a[0]
    out = {}
    for ix, F in T['v'].items():
        c = mpf(1)
        for q, x in enumerate(ix):
            if q != p['i'] - 1:
                c = c * I.x.const(symval('a_%d__%s' % (q + 1, I.coords[x])))
        g = I.cl.gp(rbasis(I, ix[p['i'] - 1]), F)
        out = I.cl.add(out, {m: v * c for m, v in g.items()})
    return out


# the remaining slots stay symbolic: their coefficients are a_k__x
op('m_pdiff', 'mlt', 'fld', lambda w, a, p: a[0].pdiff(p['i']), _m_pdiff_ref, tags=('lt',))


def _m_dd_ref(r, I, a, p):
    T = a[0]
    out = {}
    for ix, F in T['v'].items():
        for k in range(I.n):
            out[ix + (k,)] = {m: v / I.s[k] for m, v in ((m, const(I.x, v)) for m, v in I.D(k, F).items())}
    return mclean(I, {'n': T['n'] + 1, 'v': out})


op('m_dd', 'mlt', 'mlt', lambda w, a, p: a[0].dd(), _m_dd_ref, tags=('lt', 'deriv'))


def _m_cderiv_ref(r, I, a, p):
    T = a[0]
    out = {k: dict(v) for k, v in _m_dd_ref(r, I, a, p)['v'].items()}
    for ix in itertools.product(range(I.n), repeat=T['n']):
        for k in range(I.n):
            for q in range(T['n']):
                for m, c in I.de[k][ix[q]].items():
                    i = m.bit_length() - 1
                    F = T['v'].get(ix[:q] + (i,) + ix[q + 1:])
                    if F:
                        s = c / I.s[k]
                        out[ix + (k,)] = I.cl.add(out.get(ix + (k,), {}), {m2: v * s for m2, v in F.items()}, -1)
    return mclean(I, {'n': T['n'] + 1, 'v': out})


op('m_cderiv', 'mlt', 'mlt', lambda w, a, p: a[0].cderiv(), _m_cderiv_ref, tags=('lt', 'deriv'))
op('m_expand', 'mlt', 'mlt', lambda w, a, p: (copy.copy(a[0]) if p.get('copy') else a[0]).expand(), lambda r, I, a, p: {'n': a[0]['n'], 'v': dict(a[0]['v'])},
   tags=('lt',))
op('m_text', 'mlt', 'str', lambda w, a, p: a[0].comps() if p['k'] == 'comps' else _t(w, a, p), tags=('text', 'noise'))


def _l_fail(w, a, p):
    """calls that must be refused and change nothing"""
    from galgebra.lt import Lt, Mlt
    ga = a[0]
    n = ga.n
    e = ga.mv()
    calls = {
        'nonlin': lambda: ga.lt(lambda x: x * x), 'affine': lambda: ga.lt(lambda x: x + e[0]),
        'nonvec': lambda: ga.lt(lambda x: (x | e[0]) * ga.mv(2) + 0 * e[0]),
        'fails': lambda: ga.lt(lambda x: 1 / 0), 'size': lambda: ga.lt(sympy.eye(n + 1)), 'type': lambda: ga.lt(3),
        'mode': lambda: ga.lt('L', mode='q'), 'sing': lambda: ga.lt(sympy.zeros(n, n)).inv(),
        'mltargs': lambda: Mlt('T', ga, nargs=2) + Mlt('T', ga, nargs=1), 'mltadd': lambda: Mlt('T', ga, nargs=1) + 1,
        'mltexpr': lambda: Mlt(sympy.Symbol('q'), ga), 'mltfail': lambda: Mlt(lambda x, y, z: 1 / 0, ga),
        'rmul': lambda: ga.lt(sympy.eye(n)).__rmul__(ga.lt(sympy.eye(n)))}
    try:
        calls[p['k']]()
    except Exception:
        return True
    return False


LFAIL = ['nonlin', 'affine', 'nonvec', 'fails', 'size', 'type', 'mode', 'sing', 'mltargs', 'mltadd', 'mltexpr', 'mltfail', 'rmul']
op('l_fail', 'man', 'bool', _l_fail, lambda r, I, a, p: True, tags=('noise',))
op('l_foreign', 'man man', 'bool', lambda w, a, p: _foreign(a[0], a[1], p['k']), lambda r, I, a, p: True, tags=('noise',))


def _foreign(ga, gb, k):
    if ga == gb:
        return True
    import operator
    from galgebra.dop import Pdop
    from galgebra.lt import Mlt
    L, M = ga.lt(sympy.eye(ga.n)), gb.lt(sympy.eye(gb.n))
    x, y = ga.mv()[0], gb.mv()[-1]
    bops = {'+': operator.add, '-': operator.sub, '*': operator.mul, '^': operator.xor, '|': operator.or_, '<': operator.lt,
            '>': operator.gt}
    calls = {
        'call': lambda: L(y), 'add': lambda: L + M, 'sub': lambda: L - M, 'mul': lambda: L * M, 'ltmv': lambda: L * y,
        'fun': lambda: ga.lt(lambda a: (a | x) * y), 'mltcall': lambda: Mlt('T', ga, nargs=1)(y),
        'mltfun': lambda: Mlt(lambda a: a | y, ga, nargs=1), 'mltlt': lambda: Mlt(M, ga, nargs=2), 'mltmv': lambda: Mlt('T', ga, nargs=1) * y}
    for o, f in bops.items():
        calls['mv' + o] = lambda f=f: f(x, y)
        calls['dop' + o] = lambda f=f: f(ga.grad, gb.grad)
        for k_, c_ in (('dopun', False), ('dopri', True)):
            calls[k_ + o] = lambda f=f, c_=c_: f(ga.dop([(x, Pdop(ga.coords[0]))], cmpflg=c_),
                                                 gb.dop([(y, Pdop(gb.coords[-1]))], cmpflg=c_))
        calls['dopmv' + o] = lambda f=f: f(ga.grad, y)
        calls['mvdop' + o] = lambda f=f: f(y, ga.rgrad)
        if o in '+-*^|':
            calls['mlt' + o] = lambda f=f: f(Mlt('T', ga, nargs=1), Mlt('S', gb, nargs=1))
    try:
        calls[k]()
    except (ValueError, TypeError):
        return True
    return False


FOREIGN = ['call', 'add', 'sub', 'mul', 'ltmv', 'fun', 'mltcall', 'mltfun', 'mltlt', 'mltmv'] + [
    k + o for k in ('mv', 'dop', 'dopun', 'dopri', 'dopmv', 'mvdop', 'mlt') for o in '+-*^|<>' if not (k == 'mlt' and o in '<>')]


MIXLT = ['+', '-', '*', 'aug']


def _mixlt(w, a, p):
    import operator
    try:
        {'+': operator.add, '-': operator.sub, '*': operator.mul, 'aug': operator.iadd}[p['k']](a[0], a[1])
    except (ValueError, TypeError):
        return True
    return False


op('mixlt', 'lt lt', 'bool', _mixlt, lambda r, I, a, p: True, tags=('mix',))


def _sh(f):
    def g(v):
        try:
            return f(v)
        except Undefined:
            return 'unknown'
    return g


SHOW['lt'] = _sh(lambda v: '[' + ', '.join(mv_str(flat(c)) for c in v['cols']) + ']')
SHOW['mlt'] = _sh(lambda v: '%d slots {' % v['n'] + ', '.join('%s: %s' % (k, mv_str(flat(c))) for k, c in sorted(v['v'].items())) + '}')
