"""Truncated Taylor series (jets) at a point, in several variables: the exact derivatives the reference
model of calculus is built on.  Nothing in here imports galgebra or sympy's differentiation."""
import itertools
from math import factorial

import mpmath
from mpmath import mpf

from .refmodel import Clifford, TINY, Undefined, num

ORDER = 3


class Ctx:
    """jets in m variables up to total order K"""
    cache = {}

    def __new__(cls, m, K=ORDER):
        k = (m, K)
        if k not in cls.cache:
            cls.cache[k] = super().__new__(cls)
        return cls.cache[k]

    def __init__(self, m, K=ORDER):
        if hasattr(self, 'm'):
            return
        self.m, self.K = m, K
        self.idx = sorted((a for a in itertools.product(range(K + 1), repeat=m) if sum(a) <= K),
                          key=lambda a: (sum(a), a))
        self.pos = {a: i for i, a in enumerate(self.idx)}
        self.deg = [sum(a) for a in self.idx]
        self.N = len(self.idx)
        self.mul = [[] for _ in range(self.N)]          # i -> [(j, k)] with idx_i + idx_j = idx_k
        for i, a in enumerate(self.idx):
            for j, b in enumerate(self.idx):
                if self.deg[i] + self.deg[j] <= K:
                    self.mul[i].append((j, self.pos[tuple(x + y for x, y in zip(a, b))]))

    def const(self, x):
        return Jet(self, [num(x)] + [0] * (self.N - 1), self.K)

    def var(self, i, x):
        c = [num(x)] + [0] * (self.N - 1)
        if self.K:
            c[self.pos[tuple(int(j == i) for j in range(self.m))]] = mpf(1)
        return Jet(self, c, self.K)


class Jet:
    """c: Taylor coefficients (derivative / multi-index factorial); o: the order up to which they are known"""
    __slots__ = ('x', 'c', 'o')

    def __init__(self, x, c, o):
        self.x, self.c, self.o = x, c, o

    def lift(self, y):
        return y if isinstance(y, Jet) else self.x.const(y)

    def __add__(self, y):
        if not isinstance(y, Jet):
            c = list(self.c)
            c[0] = c[0] + y
            return Jet(self.x, c, self.o)
        return Jet(self.x, [a + b for a, b in zip(self.c, y.c)], min(self.o, y.o))
    __radd__ = __add__

    def __neg__(self):
        return Jet(self.x, [-a for a in self.c], self.o)

    def __sub__(self, y):
        return self + (-y)

    def __rsub__(self, y):
        return (-self) + y

    def __mul__(self, y):
        if not isinstance(y, Jet):
            return Jet(self.x, [a * y for a in self.c], self.o)
        r = [0] * self.x.N
        m, yc = self.x.mul, y.c
        for i, a in enumerate(self.c):
            if a != 0:
                for j, k in m[i]:
                    b = yc[j]
                    if b != 0:
                        r[k] += a * b
        return Jet(self.x, r, min(self.o, y.o))
    __rmul__ = __mul__

    def compose(self, ders):
        """f(self) for a function with derivatives ders[k] = f^(k) at self.c[0]"""
        h = Jet(self.x, [0] + list(self.c[1:]), self.o)
        r = self.x.const(ders[0])
        r.o = self.o
        p = None
        for k in range(1, self.x.K + 1):
            p = h if p is None else p * h
            r = r + p * (ders[k] / factorial(k))
        r.o = self.o
        return r

    def inv(self):
        a = self.c[0]
        if abs(a) < TINY:
            raise Undefined('division by zero')
        return self.compose([(-1) ** k * factorial(k) / num(a) ** (k + 1) for k in range(self.x.K + 1)])

    def __truediv__(self, y):
        if isinstance(y, Jet):
            return self * y.inv()
        return self * (1 / num(y))

    def __rtruediv__(self, y):
        return self.inv() * y

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = self.x.const(1)
            for _ in range(n):
                r = r * self
            r.o = self.o
            return r
        return self.inv() ** (-n)

    def __abs__(self):
        v = max(abs(a) for a in self.c)
        # a zero that is known to a limited order only is not dropped
        return v if v > TINY or self.o >= self.x.K else mpf(1)

    def __eq__(self, y):
        return abs(self - y) == 0 if isinstance(y, (Jet, int, type(mpf(1)))) else NotImplemented
    __hash__ = None

    def d(self, i):
        """partial derivative with respect to variable i"""
        if self.o < 1:
            raise Undefined('order exhausted')
        r = [0] * self.x.N
        for k, a in enumerate(self.x.idx):
            if a[i] and self.c[k] != 0:
                b = list(a)
                b[i] -= 1
                r[self.x.pos[tuple(b)]] = self.c[k] * a[i]
        return Jet(self.x, r, self.o - 1)

    def value(self):
        return num(self.c[0])


def jsqrt(a):
    z = num(a.c[0])
    if z <= 0:
        raise Undefined('sqrt of a negative number')
    s = mpmath.sqrt(z)
    d, co = [s], mpf(1)
    for k in range(1, a.x.K + 1):
        co = co * (mpf(1) / 2 - (k - 1))
        d.append(co * s / z ** k)
    return a.compose(d)


def jfun(name, a):
    z = num(a.c[0])
    K = a.x.K
    if name == 'sqrt':
        return jsqrt(a)
    if name == 'exp':
        e = mpmath.exp(z)
        return a.compose([e] * (K + 1))
    s, c = mpmath.sin(z), mpmath.cos(z)
    if name == 'sin':
        return a.compose([(s, c, -s, -c)[k % 4] for k in range(K + 1)])
    if name == 'cos':
        return a.compose([(c, -s, -c, s)[k % 4] for k in range(K + 1)])
    raise ValueError(name)


def const(x, v):
    return v if isinstance(v, Jet) else x.const(v)


# ------------------------------------------------------------------ expressions of plans
# 'x' | int | 'p/q' | [op, args...]; ops: + * / ** sin cos exp sqrt and ['f', name, args...] (undefined function)
def ev(e, env, x):
    """an expression as a jet; env: {coordinate: jet}"""
    from .ops_alg import scn
    if isinstance(e, (list, tuple)):
        o = e[0]
        if o == 'f':
            a = [ev(b, env, x) for b in e[2:]]
            return undefined_function(e[1], [const(x, b) for b in a])
        if o == '**':
            return const(x, ev(e[1], env, x)) ** e[2]
        a = [ev(b, env, x) for b in e[1:]]
        if o == '+':
            r = a[0]
            for b in a[1:]:
                r = r + b
            return r
        if o == '*':
            r = a[0]
            for b in a[1:]:
                r = r * b
            return r
        if o == '/':
            return const(x, a[0]) / const(x, a[1])
        return jfun(o, const(x, a[0]))
    if isinstance(e, str) and e in env:
        return env[e]
    return x.const(scn(e))


def undefined_function(name, args):
    """the same polynomial world.concrete_functions puts in its place"""
    from .world import symval
    r = 1
    for k, a in enumerate(args):
        r = a * a * num(symval('%s/%d' % (name, k))) + a * args[0] * (mpf(1) / (k + 2)) + r
    return r


def to_sympy(e, coords):
    import sympy
    from .ops_alg import sc
    if isinstance(e, (list, tuple)):
        o = e[0]
        if o == 'f':
            return sympy.Function(e[1])(*[to_sympy(b, coords) for b in e[2:]])
        a = [to_sympy(b, coords) for b in e[1:]]
        if o == '+':
            return sum(a[1:], a[0])
        if o == '*':
            r = a[0]
            for b in a[1:]:
                r = r * b
            return r
        if o == '/':
            return sympy.sympify(a[0]) / a[1]
        if o == '**':
            return a[0] ** a[1]
        return getattr(sympy, o)(a[0])
    if isinstance(e, str) and e in coords:
        return sympy.Symbol(e, real=True)
    return sympy.sympify(sc(e))


# ------------------------------------------------------------------ a coordinate patch with a metric
class Patch:
    """coordinates, metric and connection at the fixed point, as jets.  Fields are {mask: jet} over the blades
    of the library's basis (normalised if norm), derivatives are those of the Levi-Civita connection."""

    def __init__(self, coords, gram, norm=False, flat=True):
        """gram: function env -> matrix of jets over the coordinate basis"""
        from .world import symval
        self.coords, self.norm, self.flat = coords, norm, flat
        n = self.n = len(coords)
        self.x = Ctx(n)
        self.env = {c: self.x.var(i, symval(c)) for i, c in enumerate(coords)}
        g = gram(self.env, self.x)
        self.g = [[const(self.x, v) for v in row] for row in g]
        self.gi = inverse(self.g)
        zero = self.x.const(0)
        zero.o = self.x.K - 1
        # D_k e_j = sum_i G[k][j][i] e_i
        dg = [[[self.g[i][j].d(k) for k in range(n)] for j in range(n)] for i in range(n)]
        self.G = [[[None] * n for _ in range(n)] for _ in range(n)]
        for k in range(n):
            for j in range(n):
                first = [(dg[j][m][k] + dg[k][m][j] - dg[k][j][m]) * (mpf(1) / 2) for m in range(n)]
                for i in range(n):
                    t = zero
                    for m in range(n):
                        t = t + self.gi[i][m] * first[m]
                    self.G[k][j][i] = t
        self.s = [jsqrt(self.g[i][i] if self.g[i][i].value() > 0 else -self.g[i][i]) if norm else self.x.const(1) for i in range(n)]
        # metric and reciprocal basis in the library's basis
        self.gram = [[self.g[i][j] / (self.s[i] * self.s[j]) if norm else self.g[i][j] for j in range(n)]
                     for i in range(n)]
        for row in self.gram:
            for v in row:
                if norm:
                    v.o = self.x.K
        self.cl = JClifford(self.gram)
        # D_k of a library basis vector: {1 << i: jet}
        self.de = [[self._dbasis(k, j) for j in range(n)] for k in range(n)]
        # e^k = sum_i g^{ki} e_i, over the library's basis
        self.r = [self.cl.clean({1 << i: self.gi[k][i] * self.s[i] for i in range(n)}) for k in range(n)]

    def _dbasis(self, k, j):
        if not self.norm:
            return {1 << i: self.G[k][j][i] for i in range(self.n)}
        out = {1 << i: self.G[k][j][i] * self.s[i] / self.s[j] for i in range(self.n)}
        out[1 << j] = out[1 << j] - self.s[j].d(k) / self.s[j]
        return out

    def dblade(self, k, m):
        out = {}
        bits = [i for i in range(self.n) if m >> i & 1]
        for q in range(len(bits)):
            t = self.cl.scalar(1)
            for p, i in enumerate(bits):
                t = self.cl.wedge(t, self.de[k][i] if p == q else {1 << i: mpf(1)})
            out = self.cl.add(out, t)
        return out

    def D(self, k, F):
        """partial derivative of a field with respect to coordinate k"""
        out = {}
        for m, v in F.items():
            v = const(self.x, v)
            out = self.cl.add(out, {m: v.d(k)})
            if m:
                for q, w in self.dblade(k, m).items():
                    out = self.cl.add(out, {q: w * v})
        return out

    def Dn(self, alpha, F):
        for k, a in enumerate(alpha):
            for _ in range(a):
                F = self.D(k, F)
        return F

    def at(self, F):
        """the field at the point, as numbers"""
        out = {}
        for m, v in F.items():
            if isinstance(v, Jet):
                if v.o < 0:
                    raise Undefined('order exhausted')
                v = v.value()
            if abs(v) > TINY:
                out[m] = v
        return out


class JClifford(Clifford):
    def __init__(self, gram):
        self.n = len(gram)
        self.g = gram
        self._gp = {}

    def _vec_lc(self, i, m):
        r = {}
        s = 1
        for j in range(self.n):
            if m >> j & 1:
                c = self.g[i][j]
                if abs(c) > TINY:
                    k = m & ~(1 << j)
                    r[k] = r.get(k, 0) + s * c
                s = -s
        return r

    def scalar(self, v):
        if isinstance(v, Jet):
            return self.clean({0: v})
        return super().scalar(v)


def inverse(M):
    n = len(M)
    x = M[0][0].x
    A = [list(r) + [x.const(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        k = max(range(c, n), key=lambda r: abs(A[r][c].value()))
        if abs(A[k][c].value()) < mpf(10) ** -15:
            raise Undefined('degenerate metric')
        A[c], A[k] = A[k], A[c]
        p = A[c][c].inv()
        A[c] = [v * p for v in A[c]]
        for r in range(n):
            if r != c and abs(A[r][c]) > TINY:
                f = A[r][c]
                A[r] = [v - w * f for v, w in zip(A[r], A[c])]
    return [r[n:] for r in A]
