"""Reading printed text back: plain and LaTeX text -> what it denotes, by the rules of mathematical notation.

The reader knows nothing about how the library prints. It is given the texts of the atoms (basis vectors, symbols,
names of functions) and their values; everything else - signs, sums, products, wedges, powers, fractions, roots,
brackets, functions, derivatives, line breaks and environments - it reads. The result is {alpha: {mask: number}}: for
each multi-index of derivatives (operators only) a multivector in blade coordinates.
"""
import re

import mpmath
import sympy
from mpmath import mpf

from .world import _commuting_atoms, number

ANSI = re.compile('\x1b\\[[0-9;]*m')
FUNCS = {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'exp': mpmath.exp, 'log': mpmath.log, 'ln': mpmath.log,
         'sqrt': mpmath.sqrt, 'Abs': abs, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh, 'tanh': mpmath.tanh, 'asin': mpmath.asin,
         'acos': mpmath.acos, 'atan': mpmath.atan, 'asinh': mpmath.asinh, 'acosh': mpmath.acosh, 'atanh': mpmath.atanh,
         'cot': mpmath.cot, 'coth': mpmath.coth, 'sec': mpmath.sec, 'csc': mpmath.csc, 'sign': mpmath.sign,
         'atan2': mpmath.atan2, 'arctan': mpmath.atan, 'arcsin': mpmath.asin, 'arccos': mpmath.acos}
SYMPY_FUNCS = tuple(getattr(sympy, n) for n in FUNCS if n not in ('ln', 'sqrt', 'arctan', 'arcsin', 'arccos'))
INVERSE = {'sin': mpmath.asin, 'cos': mpmath.acos, 'tan': mpmath.atan, 'sinh': mpmath.asinh, 'cosh': mpmath.acosh,
           'tanh': mpmath.atanh}


class Unreadable(Exception):
    pass


class NoOpinion(Exception):
    """the object has an atom the reader has no rule for"""


class Lexicon:
    """texts and values of the atoms of an object"""
    def __init__(self, exprs, vectors, coords, cl, latex, plain, nowedge=False):
        self.cl = cl
        self.vec = {}
        self.sym = {}
        self.fun = {}
        self.plainv, self.latexv = {}, {}
        for k, v in enumerate(vectors):
            for table, f in ((self.plainv, plain), (self.latexv, latex)):
                t = f(v)
                if t in table:
                    raise NoOpinion('two vectors with one text')
                table[t] = {1 << k: mpf(1)}
        if nowedge:
            self.joined_blades(len(vectors))
        self.coords = list(coords)
        syms, applied = set(coords), {}
        for e in exprs:
            e = sympy.sympify(e)
            for d in e.atoms(sympy.Derivative):
                if not isinstance(d.expr, sympy.core.function.AppliedUndef):
                    raise NoOpinion('derivative of an expression')
            for f in e.atoms(sympy.Function):
                if isinstance(f, sympy.core.function.AppliedUndef):
                    if applied.setdefault(f.func.__name__, f) != f:
                        raise NoOpinion('one function name, two arguments')
                elif not isinstance(f, SYMPY_FUNCS):
                    raise NoOpinion('function %s' % f.func.__name__)
            if e.has(sympy.Subs, sympy.zoo, sympy.oo, sympy.nan, sympy.Piecewise, sympy.Integral):
                raise NoOpinion('unusual node')
            syms |= set(_commuting_atoms(e))
        self.applied = applied
        self.plains, self.latexs = {}, {}
        names = {}
        for s in syms:
            v = number(s)
            for table, f in ((self.plains, plain), (self.latexs, latex)):
                t = f(s).strip()
                if table.setdefault(t, v) != v or t in self.plainv or t in self.latexv:
                    raise NoOpinion('two atoms with one text')
            names[plain(s)] = s
            self.fun[latex(s).strip()] = s
        self.coordtext = {}
        for c in syms:
            if isinstance(c, sympy.Symbol):
                self.coordtext[plain(c)] = c
                self.coordtext[latex(c).strip()] = c
        for n in applied:
            if n in self.plains or n in FUNCS:
                raise NoOpinion('a function called as a symbol')
        self.latexf = {}
        for n, f in applied.items():
            for t in {latex(sympy.Symbol(n)).strip(), re.split(r'\s*\{\s*\\left', latex(f))[0].strip()}:
                if t in self.latexs or self.latexf.setdefault(t, n) != n:
                    raise NoOpinion('two atoms with one text')
        self.plainf = {n: n for n in applied}
        texts = set(self.latexs) | set(self.latexf) | set(self.latexv)
        for t in texts:
            m = re.match(r'(.*)\^\{\d+\}$', t)
            if m and m.group(1) in texts:
                raise NoOpinion('V^{2} is a component and a square')

    def joined_blades(self, n):
        """blades written as one vector with the subscripts side by side"""
        for table, pat, form in ((self.plainv, r'(.*)_(\w+)$', '%s_%s'), (self.latexv, r'(.*)_\{(.*)\}$', '%s_{%s}')):
            parts = {}
            for t, v in list(table.items()):
                m = re.match(pat, t.strip())
                if not m:
                    raise NoOpinion('a vector without subscript')
                parts[max(v)] = m.groups()
            for mask in range(1, 1 << n):
                ks = [k for k in range(n) if mask >> k & 1]
                if len(ks) > 1:
                    t = form % (parts[1 << ks[0]][0], ''.join(parts[1 << k][1] for k in ks))
                    if t in table:
                        raise NoOpinion('two blades with one text')
                    table[t] = {mask: mpf(1)}

    def derivative(self, name, order):
        """value of a derivative of a named function; order: [(coordinate text, times)]"""
        f = self.applied[name]
        for c, n in order:
            c = self.coordtext.get(c)
            if c is None:
                raise Unreadable('derivative by an unknown coordinate')
            f = sympy.Derivative(f, (c, n))
        return number(f)


def flat_number(v, what='number'):
    r = None
    for al, m in v.items():
        if any(al):
            if m:
                raise Unreadable('a derivative operator where a %s belongs' % what)
            continue
        for k, x in m.items():
            if k and x:
                raise Unreadable('a vector where a %s belongs' % what)
            if not k:
                r = x
    return mpf(0) if r is None else r


class Parser:
    def __init__(self, text, lex):
        self.lex = lex
        self.n = len(lex.coords)
        self.zero = (0,) * self.n
        self.toks = self.tokens(text)
        self.k = 0

    # ---- the ring
    def num(self, x):
        return {self.zero: {0: x} if x else {}}

    def vecval(self, k):
        return {self.zero: dict(k)}

    def dval(self, order):
        al = list(self.zero)
        cs = [str(c) for c in self.lex.coords]
        for c, n in order:
            s = self.lex.coordtext.get(c)
            if s is None or str(s) not in cs:
                raise Unreadable('operator by an unknown coordinate %r' % (c,))
            al[cs.index(str(s))] += n
        return {tuple(al): {0: mpf(1)}}

    def add(self, a, b, s=1):
        out = dict(a)
        for al, m in b.items():
            out[al] = self.lex.cl.add(out.get(al, {}), m, s)
        return out

    def mul(self, a, b, wedge=False):
        f = self.lex.cl.wedge if wedge else self.lex.cl.gp
        out = {}
        for al, m in a.items():
            for be, n in b.items():
                g = tuple(x + y for x, y in zip(al, be))
                out[g] = self.lex.cl.add(out.get(g, {}), f(m, n))
        return out

    def power(self, a, b):
        x, y = flat_number(a, 'base'), flat_number(b, 'exponent')
        if not x and y <= 0:
            raise Unreadable('zero to the power %s' % y)
        return self.num(mpmath.power(x, y) if y != int(mpmath.re(y)) else x ** int(mpmath.re(y)))

    def div(self, a, b):
        y = flat_number(b, 'denominator')
        if not y:
            raise Unreadable('division by zero')
        return self.mul(a, self.num(1 / y))

    # ---- tokens
    def peek(self, j=0):
        return self.toks[self.k + j] if self.k + j < len(self.toks) else None

    def take(self, t=None):
        x = self.peek()
        if x is None or t is not None and x != t:
            raise Unreadable('%r expected, %r found' % (t, x))
        self.k += 1
        return x

    def whole(self):
        v = self.expr()
        if self.peek() is not None:
            raise Unreadable('rest of the text: %r' % (self.toks[self.k:self.k + 6],))
        return v

    def expr(self):
        s = 1
        while self.peek() in ('+', '-'):
            s *= -1 if self.take() == '-' else 1
        v = self.term()
        if s < 0:
            v = self.add({}, v, -1)
        while self.peek() in ('+', '-'):
            s = 1
            while self.peek() in ('+', '-'):
                s *= -1 if self.take() == '-' else 1
            v = self.add(v, self.term(), s)
        return v


class Plain(Parser):
    def tokens(self, text):
        text = ANSI.sub('', text)
        lex = self.lex
        known = sorted(list(lex.plainv) + list(lex.plains) + list(lex.plainf), key=len, reverse=True)
        out = []
        i = 0
        word = re.compile(r'[A-Za-z_]\w*')
        numb = re.compile(r'\d+(\.\d+)?([eE][-+]?\d+)?|\.\d+')
        coords = '|'.join(re.escape(t) for t in sorted(lex.coordtext, key=len, reverse=True)) or '$.'
        deriv = re.compile(r'D(\{(' + coords + r')\}(\^\d+)?)+')
        while i < len(text):
            c = text[i]
            if c.isspace():
                i += 1
                continue
            for t in known:
                if text.startswith(t, i) and not (t[-1].isalnum() and i + len(t) < len(text) and (
                        text[i + len(t)].isalnum() or text[i + len(t)] == '_')):
                    if t in lex.plainv:
                        out.append(('v', lex.plainv[t]))
                    elif t in lex.plains:
                        out.append(('n', lex.plains[t], t))
                    else:
                        out.append(('f', lex.plainf[t]))
                    i += len(t)
                    break
            else:
                m = re.match(r'D\{\}', text[i:]) or deriv.match(text, i)
                if m:
                    order = [(a, int(b) if b else 1) for a, _, b in re.findall(r'\{([^{}]*)\}(\^(\d+))?', m.group(0))]
                    i += m.end() if m.group(0) == 'D{}' else m.end() - i
                    out.append(('D', [x for x in order if x[0]], i < len(text) and not text[i].isspace() and text[i] not in ')*+-^/,'))
                    continue
                m = numb.match(text, i)
                if m:
                    out.append(('n', mpf(m.group(0))))
                    i = m.end()
                    continue
                m = word.match(text, i)
                if m:
                    if m.group(0) == 'pi':
                        out.append(('n', +mpmath.pi))
                    elif m.group(0) == 'I':
                        out.append(('n', mpmath.mpc(0, 1)))
                    elif m.group(0) == 'E':
                        out.append(('n', +mpmath.e))
                    elif m.group(0) in FUNCS or m.group(0) == 'Derivative':
                        out.append(('F', m.group(0)))
                    else:
                        raise Unreadable('unknown word %r' % m.group(0))
                    i = m.end()
                    continue
                if text.startswith('**', i):
                    out.append('**')
                    i += 2
                    continue
                if c not in '+-*/^(),':
                    raise Unreadable('character %r' % c)
                out.append(c)
                i += 1
        return out

    def term(self):
        v = self.factor()
        while self.peek() in ('*', '/'):
            o = self.take()
            w = self.factor()
            v = self.mul(v, w) if o == '*' else self.div(v, w)
        return v

    def factor(self):
        if self.peek() == '-':
            self.take()
            return self.add({}, self.factor(), -1)
        v = self.pow()
        while self.peek() == '^':
            self.take()
            v = self.mul(v, self.pow(), True)
        return v

    def pow(self):
        v = self.atom()
        if self.peek() == '**':
            self.take()
            s = 1
            while self.peek() == '-':
                self.take()
                s = -s
            w = self.pow()
            v = self.power(v, w if s > 0 else self.add({}, w, -1))
        return v

    def atom(self):
        t = self.take()
        if t == '(':
            v = self.expr()
            self.take(')')
            return v
        if not isinstance(t, tuple):
            raise Unreadable('%r where a value belongs' % (t,))
        if t[0] == 'n':
            return self.num(t[1])
        if t[0] == 'v':
            return self.vecval(t[1])
        if t[0] == 'D':
            if t[2]:
                f = self.take()
                if not (isinstance(f, tuple) and f[0] == 'f'):
                    raise Unreadable('derivative of %r' % (f,))
                return self.num(self.lex.derivative(f[1], t[1]))
            return self.dval(t[1])
        if t[0] == 'f':
            if self.peek() == '(':          # arguments written out
                self.arguments()
            return self.num(self.lex.derivative(t[1], []))
        if t[1] == 'Derivative':
            return self.written_derivative()
        return self.num(FUNCS[t[1]](*self.arguments()))

    def written_derivative(self):
        """Derivative(f(x, y), x, (y, 2))"""
        self.take('(')
        f = self.take()
        if not (isinstance(f, tuple) and f[0] == 'f'):
            raise Unreadable('derivative of %r' % (f,))
        if self.peek() == '(':
            self.arguments()
        order = []
        while self.peek() == ',':
            self.take()
            if self.peek() == '(':
                self.take()
                c = self.take()
                self.take(',')
                order.append((c[2], int(flat_number(self.expr()))))
                self.take(')')
            else:
                order.append((self.take()[2], 1))
        self.take(')')
        return self.num(self.lex.derivative(f[1], order))

    def arguments(self):
        self.take('(')
        args = [flat_number(self.expr(), 'argument')]
        while self.peek() == ',':
            self.take()
            args.append(flat_number(self.expr(), 'argument'))
        self.take(')')
        return args


class Latex(Parser):
    inverse_power = False
    PRIM = re.compile(r'\\[A-Za-z]+|\\.|\S')

    @staticmethod
    def marks(t):
        t = re.sub(r'\\right\s*\|', r'\\rvert ', re.sub(r'\\left\s*\|', r'\\lvert ', t))
        return t.replace(r'\left', ' ').replace(r'\right', ' ').replace(r'\operatorname', ' ')

    def tokens(self, text):
        text = re.sub(r'\\(begin|end)\{(aligned|align\*|equation\*|equation|split)\}(\[t\])?', ' ', text)
        text = text.replace('&', ' ').replace('$', ' ').replace(r'\displaystyle', ' ').replace(r'\\', ' ')
        text = self.marks(text)
        prim = self.PRIM.findall(text)
        lex = self.lex
        known = []
        for table, k in ((lex.latexv, 'v'), (lex.latexs, 'n'), (lex.latexf, 'f')):
            for t, v in table.items():
                known.append((tuple(self.PRIM.findall(self.marks(t))), (k, v)))
        known.sort(key=lambda x: -len(x[0]))
        self.bycoord = {tuple(self.PRIM.findall(t)): t for t in lex.coordtext}
        out = []
        i = 0
        while i < len(prim):
            for seq, tok in known:
                if tuple(prim[i:i + len(seq)]) == seq:
                    out.append(tok + (seq,))
                    i += len(seq)
                    break
            else:
                if prim[i].isdigit():
                    j = i
                    while j < len(prim) and (prim[j].isdigit() or prim[j] == '.'):
                        j += 1
                    out.append(('n', mpf(''.join(prim[i:j]))))
                    i = j
                    continue
                w = re.match(r'[A-Za-z]+', ''.join(x if len(x) == 1 else ' ' for x in prim[i:i + 8]))
                if w and w.group(0) in FUNCS:
                    out.append(('F', w.group(0)))
                    i += len(w.group(0))
                    continue
                out.append(prim[i])
                i += 1
        return out

    STOP = ('+', '-', '}', ')', ',', ']', r'\rvert', None, r'\rfloor')

    def term(self):
        v = self.factor()
        while True:
            t = self.peek()
            if t in (r'\cdot', '*'):
                self.take()
            elif t == '/':
                self.take()
                v = self.div(v, self.factor())
                continue
            elif t in self.STOP:
                return v
            v = self.mul(v, self.factor())

    def factor(self):
        v = self.unit()
        while self.peek() == r'\wedge':
            self.take()
            v = self.mul(v, self.unit(), True)
        return v

    def unit(self):
        v = self.primary()
        if self.peek() == '^':
            self.take()
            v = self.power(v, self.group())
            if self.peek() == '^':
                raise Unreadable('double superscript')
        return v

    def group(self):
        if self.peek() == '{':
            self.take()
            v = self.expr()
            self.take('}')
            return v
        return self.primary()

    def coord(self):
        t = self.take()
        seq = t[2] if isinstance(t, tuple) and len(t) == 3 else (t,)
        c = self.bycoord.get(tuple(seq))
        if c is None:
            raise Unreadable('derivative by %r' % (t,))
        return c

    def count(self):
        self.take('^')
        return int(flat_number(self.group()))

    def primary(self):
        t = self.take()
        if t == '(' and isinstance(self.peek(), tuple) and self.peek()[0] == 'f' and self.peek(1) == ')':
            name = self.take()[1]           # (V^{x})^{2}(x)
            self.take(')')
            return self.powered(name, [])
        if t in ('{', '('):
            v = self.expr()
            self.take('}' if t == '{' else ')')
            return v
        if t == r'\lvert':
            v = self.expr()
            self.take(r'\rvert')
            return self.num(abs(flat_number(v)))
        if t == r'\pi':
            return self.num(+mpmath.pi)
        if t == 'i':
            return self.num(mpmath.mpc(0, 1))
        if t == 'e':
            return self.num(+mpmath.e)
        if t == r'\sqrt':
            n = mpf(2)
            if self.peek() == '[':
                self.take()
                n = flat_number(self.expr())
                self.take(']')
            return self.num(mpmath.power(flat_number(self.group()), 1 / n))
        if t == r'\frac':
            if self.peek() == '{' and self.peek(1) in (r'\partial', 'd') and (self.peek(2) == '}' or (
                    self.peek(2) == '^' and self.peek(3) == '{' and self.peek(5) == '}' and self.peek(6) == '}')):
                return self.dfrac()
            a = self.group()
            return self.div(a, self.group())
        if t == r'\partial':
            return self.dsub()
        if isinstance(t, tuple):
            if t[0] == 'n':
                return self.num(t[1])
            if t[0] == 'v':
                return self.vecval(t[1])
            if t[0] == 'f':
                return self.powered(t[1], [])
            if t[0] == 'F':
                return self.call(t[1])
        if isinstance(t, str) and t[:1] == '\\' and t[1:] in FUNCS:
            return self.call(t[1:])
        raise Unreadable('%r where a value belongs' % (t,))

    def powered(self, name, order):
        """f, f(x,y), f^{2}(x,y)"""
        if self.peek() != '^':
            return self.num(self.named(name, order))
        self.take()
        w = self.group()
        return self.power(self.num(self.named(name, order)), w)

    def call(self, name):
        f = FUNCS[name]
        if self.peek() == '^':
            self.take()
            w = flat_number(self.group())
            if w == -1:
                if name not in INVERSE:
                    raise Unreadable('inverse of %s' % name)
                f = INVERSE[name]
            else:
                g = f
                f = lambda *x: mpmath.power(g(*x), w)
        if self.peek() == '{' and self.peek(1) == '(':
            self.take()
            v = self.args()
            self.take('}')
        elif self.peek() == '(':
            v = self.args()
        elif self.peek() == '{':
            v = [self.group()]
        else:
            raise Unreadable('%s without an argument' % name)
        return self.num(f(*[flat_number(x, 'argument') for x in v]))

    def args(self):
        self.take('(')
        v = [self.expr()]
        while self.peek() == ',':
            self.take()
            v.append(self.expr())
        self.take(')')
        return v

    def named(self, name, order):
        """a function of the coordinates, its arguments may be written out"""
        if self.peek() == '{' and self.peek(1) == '(':
            self.take()
            self.args()
            self.take('}')
        return self.lex.derivative(name, order)

    def dsub(self):
        """\\partial_{x}\\partial^{2}_{y} f"""
        order = []
        while True:
            n = self.count() if self.peek() == '^' else 1
            self.take('_')
            self.take('{')
            order.append((self.coord(), n))
            self.take('}')
            if self.peek() != r'\partial':
                break
            self.take()
        t = self.take()
        if not (isinstance(t, tuple) and t[0] == 'f'):
            raise Unreadable('derivative of %r' % (t,))
        return self.num(self.named(t[1], order))

    def dfrac(self):
        """\\frac{\\partial^{3}}{\\partial x^{2}\\partial y}, an operator or in front of a function"""
        self.take('{')
        d = self.take()
        total = self.count() if self.peek() == '^' else 1
        self.take('}')
        self.take('{')
        order = []
        while self.peek() != '}':
            self.take(d)
            n = self.count() if self.peek() == '^' else 1
            c = self.coord()
            if self.peek() == '^':
                n = self.count()
            order.append((c, n))
        self.take('}')
        if sum(n for _, n in order) != total:
            raise Unreadable('%s of %d derivatives' % (order, total))
        t = self.peek()
        if isinstance(t, tuple) and t[0] == 'f':
            self.take()
            return self.num(self.named(t[1], order))
        return self.dval(order)
