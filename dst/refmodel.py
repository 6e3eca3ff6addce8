"""Small executable reference model of a Clifford algebra with an arbitrary metric.

A multivector is a dict {bitmask: mpmath number}; bit i set means basis vector i is a factor of
the blade, the blade being the OUTER product of its basis vectors in increasing order (so the same
coordinates as galgebra's blade representation, for non-orthogonal metrics too).  Nothing in here
imports galgebra.
"""
import mpmath
from mpmath import mpf, mpc

MP = mpmath.mp
MP.dps = 40


def popcount(x):
    return bin(x).count('1')


TINY = mpf(10) ** -30


def det(M):
    """by cofactor-free Gaussian elimination with full row pivoting (mpmath.det crashes on some singular input)"""
    A = [[M[i, j] for j in range(M.cols)] for i in range(M.rows)] if hasattr(M, 'cols') else [list(r) for r in M]
    n, d = len(A), mpf(1)
    for c in range(n):
        k = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[k][c]) < TINY:
            return mpf(0)
        if k != c:
            A[k], A[c] = A[c], A[k]
            d = -d
        d *= A[c][c]
        for r in range(c + 1, n):
            if A[r][c] != 0:
                f = A[r][c] / A[c][c]
                for j in range(c, n):
                    A[r][j] -= f * A[c][j]
    return d


class Undefined(Exception):
    """The reference has no value for this operation (not invertible, ...)."""


class Clifford:
    def __init__(self, gram):
        self.n = len(gram)
        self.g = [[num(x) for x in row] for row in gram]
        self._gp = {}

    # -- elementary ------------------------------------------------------------------------
    def clean(self, a):
        return {k: v for k, v in a.items() if abs(v) > TINY}

    def scalar(self, x):
        return self.clean({0: num(x)})

    def add(self, a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return self.clean(r)

    def sub(self, a, b):
        return self.add(a, b, -1)

    def scale(self, a, s):
        return self.clean({k: v * s for k, v in a.items()})

    def _vec_wedge(self, i, m):
        """e_i ^ blade(m) -> (sign, mask) or (0, 0)"""
        if m >> i & 1:
            return 0, 0
        return (-1) ** popcount(m & ((1 << i) - 1)), m | (1 << i)

    def _vec_lc(self, i, m):
        """e_i left-contracted on blade(m)"""
        r = {}
        s = 1
        for j in range(self.n):
            if m >> j & 1:
                c = self.g[i][j]
                if c != 0:
                    k = m & ~(1 << j)
                    r[k] = r.get(k, 0) + s * c
                s = -s
        return r

    def _vec_gp(self, i, a):
        r = {}
        for m, v in a.items():
            s, k = self._vec_wedge(i, m)
            if s:
                r[k] = r.get(k, 0) + s * v
            for k, c in self._vec_lc(i, m).items():
                r[k] = r.get(k, 0) + c * v
        return self.clean(r)

    def blade_gp(self, m1, m2):
        key = (m1, m2)
        r = self._gp.get(key)
        if r is None:
            if m1 == 0:
                r = {m2: mpf(1)}
            else:
                i = (m1 & -m1).bit_length() - 1
                rest = m1 & ~(1 << i)
                # e_i ^ R = e_i R - e_i . R
                r = self._vec_gp(i, self.blade_gp(rest, m2))
                for k, c in self._vec_lc(i, rest).items():
                    r = self.add(r, self.blade_gp(k, m2), -c)
            self._gp[key] = r
        return r

    def gp(self, a, b):
        r = {}
        for m1, v1 in a.items():
            for m2, v2 in b.items():
                for k, c in self.blade_gp(m1, m2).items():
                    r[k] = r.get(k, 0) + c * v1 * v2
        return self.clean(r)

    def _graded(self, a, b, pick):
        r = {}
        for m1, v1 in a.items():
            for m2, v2 in b.items():
                t = pick(popcount(m1), popcount(m2))
                if t is None:
                    continue
                for k, c in self.blade_gp(m1, m2).items():
                    if popcount(k) == t:
                        r[k] = r.get(k, 0) + c * v1 * v2
        return self.clean(r)

    def wedge(self, a, b):
        return self._graded(a, b, lambda p, q: p + q)

    def hestenes(self, a, b):
        return self._graded(a, b, lambda p, q: abs(p - q) if p and q else None)

    def lc(self, a, b):
        return self._graded(a, b, lambda p, q: q - p if q >= p else None)

    def rc(self, a, b):
        return self._graded(a, b, lambda p, q: p - q if p >= q else None)

    def anti(self, a, b):
        return self.scale(self.add(self.gp(a, b), self.gp(b, a)), mpf(1) / 2)

    def comm(self, a, b):
        return self.scale(self.sub(self.gp(a, b), self.gp(b, a)), mpf(1) / 2)

    def grade(self, a, r):
        return {k: v for k, v in a.items() if popcount(k) == r}

    def even(self, a):
        return {k: v for k, v in a.items() if popcount(k) % 2 == 0}

    def odd(self, a):
        return {k: v for k, v in a.items() if popcount(k) % 2 == 1}

    def rev(self, a):
        return {k: v * (-1) ** (popcount(k) * (popcount(k) - 1) // 2) for k, v in a.items()}

    def invol(self, a):
        return {k: v * (-1) ** popcount(k) for k, v in a.items()}

    def ccon(self, a):
        return self.rev(self.invol(a))

    def s(self, a):
        return a.get(0, mpf(0))

    def mat(self, a):
        """left multiplication matrix"""
        N = 1 << self.n
        M = mpmath.zeros(N, N)
        for j in range(N):
            for k, c in self.gp(a, {j: mpf(1)}).items():
                M[k, j] += c
        return M

    def inv(self, a):
        a = self.clean(a)
        if not a:
            raise Undefined('zero')
        M = self.mat(a)
        N = 1 << self.n
        scale = max(abs(M[i, j]) for i in range(N) for j in range(N))
        d = det(M / scale)
        if abs(d) < mpf(10) ** -15:
            raise Undefined('singular')
        b = mpmath.zeros(N, 1)
        b[0] = 1
        x = mpmath.lu_solve(M, b)
        top = max(abs(x[k]) for k in range(N))
        return {k: x[k] for k in range(N) if abs(x[k]) > top * mpf(10) ** -30}

    def pow(self, a, n):
        if n < 0:
            return self.inv(self.pow(a, -n))
        r = self.scalar(1)
        for _ in range(n):
            r = self.gp(r, a)
        return r

    def exp(self, a):
        """by power series: independent of the closed forms the library uses"""
        s = max([abs(v) for v in a.values()] or [0]) * (1 << self.n)
        k = max(0, int(mpmath.ceil(mpmath.log(s + 1, 2))) + 2) if s else 0
        b = self.scale(a, mpf(1) / 2 ** k)
        r = self.scalar(1)
        t = self.scalar(1)
        for i in range(1, 60):
            t = self.scale(self.gp(t, b), mpf(1) / i)
            if not t or max(abs(v) for v in t.values()) < mpf(10) ** -60:
                break
            r = self.add(r, t)
        for _ in range(k):
            r = self.gp(r, r)
        return r

    def E(self):
        return {(1 << self.n) - 1: mpf(1)}

    def E_sq(self):
        return self.s(self.gp(self.E(), self.E()))

    def det_g(self):
        return det(self.g)

    def I(self):
        e2 = self.E_sq()
        if e2 == 0:
            return self.E()
        return self.scale(self.E(), 1 / mpmath.sqrt(abs(e2)))

    DUAL_MODES = ['+I', 'I+', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-']

    def dual(self, a, mode):
        I = self.I()
        if 'Iinv' in mode:
            I = self.inv(I)
        s = -1 if '-' in mode else 1
        r = self.gp(I, a) if mode[0] in '+-' else self.gp(a, I)
        return self.scale(r, s)

    def qform(self, a):
        return self.s(self.gp(self.rev(a), a))

    def outermorphism(self, cols, a):
        """apply the outermorphism whose image of e_j is the vector dict cols[j]"""
        r = {}
        for m, v in a.items():
            t = self.scalar(1)
            for j in range(self.n):
                if m >> j & 1:
                    t = self.wedge(t, cols[j])
            r = self.add(r, t, v)
        return r


def num(x):
    if isinstance(x, (mpf, mpc)) or hasattr(x, 'compose'):
        return x
    if isinstance(x, int):
        return mpf(x)
    if hasattr(x, 'numerator') and hasattr(x, 'denominator') and not callable(x.numerator):
        return mpf(int(x.numerator)) / int(x.denominator)
    return mpmath.mpmathify(x)


def close(a, b, tol=mpf(10) ** -18):
    d = abs(a - b)
    return d <= tol * max(1, abs(a), abs(b))


def mv_close(a, b, tol=mpf(10) ** -18):
    scale = max([mpf(1)] + [abs(v) for v in a.values()] + [abs(v) for v in b.values()])
    for k in set(a) | set(b):
        if abs(a.get(k, 0) - b.get(k, 0)) > tol * scale:
            return False
    return True


def mv_str(a):
    return '{' + ', '.join('%s: %s' % (bin(k)[2:], mpmath.nstr(a[k], 12)) for k in sorted(a)) + '}'
