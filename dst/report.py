"""Sessions that capture and export LaTeX reports: executor, reference model, generator."""
import contextlib
import io
import inspect
import os
import re
import shutil
import sys
import tempfile

from .desk import Desk, Terminal
from .engine import fork_call

BYSTANDERS = ['n.tex', 'n.aux', 'n.log', 'n.pdf', 'my', 'my.tex', 'my.aux', 'my.log', 'report.aux', 'report.log', 'rep.dat', 'r.tex',
              're.aux', 're.log', 're.tex', 'x.tex', 'x.aux', 'x.log', 'x.pdf', 'xure.tex', 'xure.aux', 'xure.log', 'xure.pdf',
              'fig.tex', 'fig.aux', 'fig.log', 'fig.pdf', 'other.txt', 'aux', 'log', 'tex', 'figures', 'prog', 'o.tex', 'o.pdf',
              '2.tex', 'v2.aux', 'fig', 'report', 'pr.tex', 'a', 'b.aux', 'b.log', 'a.tex', 'report-crop.pdf', 'crop.pdf']
NAMES = ['rep.tex', 'rep.tex', 'rep.tex', 'doc.tex', 'doc.tex', 'my report.tex', 'fig.v2.tex', 'x.texture.tex', 'notes', None, 'a&b.tex', 'q.tex']
PROG = 'prog.py'
PROG_TEXT = '# the running program\nfrom galgebra.printer import Format, xpdf\nFormat()\n'


def own(filename):
    """-> predicate: does a file name belong to the report `filename`"""
    root = filename[:-4] if filename.endswith('.tex') else filename
    return lambda f: f == filename or (f.startswith(root + '.') and f != PROG) or f.startswith(root + '-crop') or f == root + '.pdf.png'


# ------------------------------------------------------------------ documented post-processing of a captured text
def texify(s):
    pairs = [(r'\|', r'\cdot '), (r'\^(?!{)', r'\W '), (r'\*', ' '), (r'\brgrad\b', r'\bar{\boldsymbol{\nabla}} '),
             (r'\bgrad\b', r'\boldsymbol{\nabla} '), ('>>', r' \times '), ('<<', r' \bar{\times} '), ('<', r'\rfloor '),
             ('>', r'\lfloor ')]
    out, i = '', 0
    while i < len(s):
        for p, r in pairs:
            m = re.compile(p).match(s, i)
            if m:
                out += r
                i = m.end()
                break
        else:
            out += s[i]
            i += 1
    return out


ALIGN = r'\begin{align*}'


def body_lines(text):
    """lines of the report's body for a captured text, white space collapsed, blank lines dropped"""
    out, code = [], False
    for line in text.split('\n'):
        if not line:
            continue
        if line.startswith('##'):
            code = not code
            line = line[2:]
        elif code:
            pass
        elif line.startswith('#') and not line.startswith('#%'):
            line = line[1:]
        else:
            if line.startswith('#%'):
                line = line[2:]
            elif line.startswith('%'):
                line = line[1:]
            elif '=' in line:
                lhs, rhs = line.rsplit('=', 1)
                line = texify(lhs) + '=' + rhs
            if ALIGN in line:
                line = ALIGN + ' ' + line.replace(ALIGN, '', 1).lstrip()
            else:
                line = r'\begin{equation*} ' + line.strip() + r' \end{equation*}'
        out.append(line)
    return [norm(x) for x in out if norm(x)]


def norm(s):
    return ' '.join(s.split())


def split_report(s):
    """(preamble, body) or None when this is not one complete document"""
    if s.count('\\begin{document}') != 1 or s.count('\\end{document}') != 1:
        return None
    pre, rest = s.split('\\begin{document}')
    body, post = rest.split('\\end{document}')
    if post.strip() or '\\documentclass' not in pre:
        return None
    return pre, body


# ------------------------------------------------------------------ executor
class Boom(Exception):
    pass


class BadStr:
    def __str__(self):
        raise Boom('str')
    __repr__ = __str__


def shown_function(fn):
    # the body below is what Print_Function shows
    fn()


def make_objects():
    import sympy
    from galgebra.ga import Ga
    x, y = sympy.symbols('x y', real=True)
    ga, e1, e2 = Ga.build('e*1|2', g=[1, -1], coords=(x, y))
    f = sympy.Function('f')(x, y)

    class Poison(sympy.Function):
        def _latex(self, printer):
            raise Boom('latex')

        def _sympystr(self, printer):
            raise Boom('str')
    objs = [e1 + 2 * e2, ga.mv('A', 'mv'), ga.mv(f, 'scalar') * e1, (e1 ^ e2) * x, sympy.Matrix([[1, x], [y, 2]]), f.diff(x),
            ga.lt('L'), ga.grad, x * e1 + 3, sympy.sin(x) / y, ga.mv('B', 'mv').Fmt(3), ga.mv('C', 'mv').Fmt(2, 'C'), sympy.Rational(3, 2),
            17, 'text', [x, y], {x: y}, ga.mv(f.diff(x), 'scalar') + e1]
    return ga, objs, ga.mv([Poison(x), 1], 'vector')


class Sim:
    def __init__(self, root):
        self.d = Desk(root)
        self.viols, self.log, self.cnt = [], [], {}

    def bump(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def bad(self, cls, msg, sig=None):
        self.viols.append((cls, 'step %d %s: %s' % (self.i, self.what, msg), sig or cls))

    def boot(self):
        from galgebra import gprinter, printer
        self.P, self.G = printer, gprinter
        self.ga, self.objs, self.poison = make_objects()
        os.chdir(self.d.root)
        sys.argv = [PROG]
        for f in BYSTANDERS + [PROG]:
            with open(f, 'w') as h:
                h.write(PROG_TEXT if f == PROG else 'mine: %s\n' % f)
        self.d.install()
        d = self.d
        self.T = [Terminal(d, 't%d' % k) for k in range(3)]
        self.want = ['', '', '']
        self.cur_t = 0
        sys.stdout = self.T[0]
        # reference state
        self.cap = False        # printing is being captured
        self.flg = False        # objects print as LaTeX
        self.cur = ''           # captured since capture was switched on
        self.bufs = {''}        # what was captured before and not exported yet (possible values)
        self.gflag = False
        self.gbufs = {''}
        self.files = self.snapshot()

    def snapshot(self):
        return {f: self.d.get(f) for f in sorted(os.listdir(self.d.root))}

    # ---- expected text
    def text_of(self, o):
        if not hasattr(type(o), '__ga_print_str__'):
            return str(o)
        return (self.P.GaLatexPrinter if self.flg else self.P.GaPrinter)().doprint(o)

    def emit(self, s):
        """the program prints s on its standard output"""
        if self.cap:
            self.cur += s
        else:
            self.want[self.cur_t] += s

    # ---- steps
    def run(self, steps):
        self.boot()
        for i, st in enumerate(steps):
            self.i, self.what = i, '%s %s%s' % (st['k'], st['p'], ' faults %s' % st['f'] if st.get('f') else '')
            self.d.arm(st.get('f'))
            self.d.locale = st.get('loc', 'utf-8')
            getattr(self, 's_' + st['k'])(st['p'])
            self.after(st)
            if self.viols:
                break
        if not self.viols:
            self.i, self.what = len(steps), 'final reports'
            self.d.arm(())
            self.d.locale = 'utf-8'
            self.s_tex({})
            self.s_gxpdf({'file': 'last.tex', 'prog': None})
            self.after({'k': 'final', 'p': {}})
        return self.viols, self.cnt, self.log

    def after(self, st):
        for seam, kind in self.d.fired:
            self.bump('fault:%s:%s' % (seam.replace('prog:', ''), kind))
        if self.d.outside:
            self.bad('outside', 'touched %s outside its directory' % self.d.outside)
        if self.cap:
            if any(sys.stdout is t for t in self.T):
                self.bad('not-captured', 'printing is not captured although capture is on', 'on')
        elif sys.stdout is not self.T[self.cur_t]:
            self.bad('stdout', 'standard output is %s, not the caller\'s stream' % type(sys.stdout).__name__)
        for k, t in enumerate(self.T):
            if t.text != self.want[k]:
                a, b = t.text, self.want[k]
                n = len(os.path.commonprefix([a, b]))
                self.bad('terminal', 'caller\'s stream %d has %r where %r is expected' % (k, a[n:n + 200], b[n:n + 200]))
            junk = ''.join(t.chatter)
            if 'mk' in junk and not st['p'].get('debug'):
                self.bad('terminal', 'captured output leaked to the terminal: %r' % junk[:300], 'leak')
            t.chatter.clear()
        now = self.snapshot()
        fn = st['p'].get('file', None) if st['k'] in ('xpdf', 'gxpdf', 'xdvi') else None
        mine = own(fn or 'prog.tex') if st['k'] in ('xpdf', 'gxpdf', 'xdvi') else (lambda f: False)
        if st['k'] == 'final':
            mine = own('last.tex')
        for f in sorted(set(now) | set(self.files)):
            if now.get(f) != self.files.get(f) and not mine(f):
                self.bad('other-file', 'file %r, not part of the report, was %s' % (
                    f, 'removed' if f not in now else 'created' if f not in self.files else 'changed'))
        self.files = now
        self.log.append((self.i, st['k'], sorted(self.d.fired), self.cap, sorted(now)))

    def lib(self, f, *a, **k):
        """call into the library's report machinery; returns (value, exception)"""
        self.d.in_library = True
        try:
            return f(*a, **k), None
        except BaseException as e:
            return None, e
        finally:
            self.d.in_library = False

    def need(self, exc, what):
        """an exception with no fault behind it"""
        if exc is not None and not self.d.hard:
            self.bad('raised', '%s raised %s: %s' % (what, type(exc).__name__, str(exc)[:300]), what)

    def s_on(self, p):
        how = p['how']
        if how == 'Format':
            kw = {k: p[k] for k in ('Fmode', 'Dmode') if k in p}
            _, e = self.lib(self.P.Format, **kw)
        elif how == 'LatexFormat':
            _, e = self.lib(self.P.LatexFormat, **{k: p[k] for k in ('Fmode', 'Dmode') if k in p})
        else:
            _, e = self.lib(self.P.GaLatexPrinter.redirect)
        self.need(e, how)
        self.cap = self.flg = True
        self.bump('captures')

    def s_off(self, p):
        _, e = self.lib(self.P.GaLatexPrinter.restore)
        self.need(e, 'restore')
        self.end()

    def end(self):
        if self.cap:
            self.bufs = {b + self.cur for b in self.bufs}
            self.cur = ''
        self.cap = self.flg = False

    def user(self, f, want, expected_exc=None, partial=None):
        """the program prints; want is what reaches its standard output"""
        try:
            f()
            exc = None
        except Exception as e:
            exc = e
        if expected_exc is not None:
            if not isinstance(exc, expected_exc):
                if not (self.d.fired and exc is not None):
                    self.bad('no-error', 'printing should have failed with %s, got %r' % (expected_exc.__name__, exc))
            if not self.cap and self.d.fired:
                self.resync(partial or '')
                return
            self.emit(partial or '')
            return
        if exc is not None:
            if not self.d.fired:
                self.bad('raised', 'printing raised %r' % exc, 'print')
            self.resync(want)
            return
        self.emit(want)

    def resync(self, want):
        """a broken stream took part of the text"""
        t = self.T[self.cur_t]
        old = self.want[self.cur_t]
        new = t.text[len(old):]
        if t.text.startswith(old) and want.startswith(new):
            self.want[self.cur_t] = t.text
        else:
            self.want[self.cur_t] = old + want

    def s_print(self, p):
        w, m = p['w'], 'mk%d' % p['m']
        o = self.objs[p['o'] % len(self.objs)]
        kw = {}
        f = print
        if w == 'plain':
            a = [m]
        elif w == 'eq':
            a = [m + ' =', o]
        elif w == 'op':
            a = [m + ' a*b^c|d < grad >> e =', o]
        elif w == 'eq2':
            a = [m + ' = x*y =', o]
        elif w == 'hash':
            a = ['#' + m + ' a*b = plain']
        elif w == 'pct':
            a = ['%' + m + ' a*b =', o]
        elif w == 'hpct':
            a = ['#%' + m + ' a^b =', o]
        elif w == 'verb':
            a = ['##' + m + '\n#a*b = c\n%x\n##' + m]
        elif w == 'open':
            a = ['##' + m]
        elif w == 'align':
            a = [m + ' = ' + ALIGN + ' x & y \\end{align*}']
        elif w == 'multi':
            a = [m, o, self.objs[(p['o'] + 3) % len(self.objs)]]
            kw = {'sep': p.get('sep', ' ')}
        elif w == 'end':
            a = [m, o]
            kw = {'end': p.get('end', '')}
        elif w == 'empty':
            a = []
        elif w == 'lines':
            a = ['%sa = b*c\n\n%sc' % (m, m)]
        elif w == 'uni':
            a = [m + ' \u00e9\u03b1 =', o]
        elif w == 'obj':
            a = [o]
        want = kw.get('sep', ' ').join(self.text_of(x) for x in a) + kw.get('end', '\n')
        self.user(lambda: f(*a, **kw), want)
        self.bump('prints_captured' if self.cap else 'prints_outside')

    def s_write(self, p):
        s = 'mk%d written = a*b%s' % (p['m'], '\n' if p.get('nl', True) else '')
        self.user(lambda: sys.stdout.write(s), s)

    def s_oprint(self, p):
        o = self.objs[p['o'] % len(self.objs)]
        t = 'mk%d' % p['m']
        P = self.P
        if p['w'] == 'oprint':
            s = P.ostr(o)
            want = (t + ':\n' + s if '\n' in s else t + ' = ' + s) + '\n'
            self.user(lambda: P.oprint(t, o), want)
        elif p['w'] == 'print_latex':
            self.user(lambda: P.print_latex(o), P.latex(o) + '\n')
        else:
            src = inspect.getsource(shown_function)
            if self.flg:
                want = ('##\\begin{lstlisting}[language=Python,showspaces=false,showstringspaces=false,'
                        'backgroundcolor=\\color{gray},frame=single]\n' + src + '\n##\\end{lstlisting}\n#Code Output:\n')
            else:
                want = '\n' + 80 * '*' + '\n' + src + '\nCode output:\n\n'
            self.user(lambda: shown_function(P.Print_Function), want)

    def s_badprint(self, p):
        t = 'mk%d' % p['m']
        w = p['w']
        if w == 'poison':
            self.user(lambda: print(t, self.poison), '', Boom, '')
        elif w == 'str':
            self.user(lambda: print(t, BadStr(), 'x'), '', Boom, t + ' ')
        elif w == 'fmt':
            self.user(lambda: print(t, self.poison.Fmt(3, 'v')), '', Boom, '')
        elif w == 'oprint':
            self.user(lambda: self.P.oprint(t, self.poison), '', Boom, '')
        elif w == 'gprint':
            g = {b for b in self.gbufs}
            self.user(lambda: self.G.gprint(t, self.poison), '', Boom, '')
            self.gbufs = g
        elif w == 'print_latex':
            self.user(lambda: self.P.print_latex(self.poison), '', Boom, '')
        elif w == 'setting':
            self.user(lambda: self.P.print_latex(self.objs[0], no_such_setting=1), '', TypeError, '')
        elif w == 'error':
            def f():
                raise Boom('user error')
            self.user(f, '', Boom, '')
        self.bump('fault:failing_print')

    def s_aside(self, p):
        """the program redirects its output for a moment, or names another file"""
        t = 'mk%d' % p['m']
        o = self.objs[p['o'] % len(self.objs)]
        want = t + ' ' + self.text_of(o) + '\n'
        s = io.StringIO()
        if p['w'] == 'file':
            print(t, o, file=s)
        else:
            with contextlib.redirect_stdout(s):
                print(t, o)
        if s.getvalue() != want:
            self.bad('aside', 'printing to another stream gave %r, not %r' % (s.getvalue(), want))

    def s_stream(self, p):
        """the caller installs another standard output (only while nothing is captured)"""
        if not self.cap:
            self.cur_t = p['t']
            sys.stdout = self.T[self.cur_t]

    def s_compute(self, p):
        a, b = self.objs[0], self.objs[1]
        k = p['w']
        if k == 0:
            a * b
        elif k == 1:
            str(b | a)
        elif k == 2:
            self.P.latex(b)
        elif k == 3:
            self.ga.grad * self.objs[8]
        else:
            from galgebra.printer import GAeval, def_prec
            def_prec({'a': a, 'b': b})
            GAeval('a^b')

    # ---- reports
    def check_report(self, text, bufs, p):
        """-> the set of buffers this report may have been made of"""
        r = split_report(text)
        if r is None:
            self.bad('incomplete', 'the report is not one complete document: %r ... %r' % (text[:80], text[-80:]))
            return bufs
        pre, body = r
        if 'paper' in p:
            pp = p['paper']
            size = None if pp == 'letter' else [11, 8.5] if pp == 'landscape' else pp
            if size and 'papersize={%sin,%sin}' % (size[0], size[1]) not in pre.replace(' ', ''):
                self.bad('layout', 'paper size %s not in the preamble' % (size,))
        if p.get('pt') and '[%s,' % p['pt'] not in pre:
            self.bad('layout', 'font size %s not in the preamble' % p['pt'])
        lines = [norm(x) for x in body.split('\n') if norm(x)]
        ok = set()
        for b in bufs:
            want = body_lines(b)
            have = lines
            if p.get('prog_src'):
                n = len(lines) - len(want)
                head = ' '.join(lines[:n])
                if norm(PROG_TEXT) not in head or 'lstlisting' not in head:
                    continue
                have = lines[n:]
            if have == want:
                ok.add(b)
        if not ok:
            b = sorted(bufs, key=len)[-1]
            want = body_lines(b)
            k = 0
            off = max(0, len(lines) - len(want)) if p.get('prog_src') else 0
            while k < min(len(want), len(lines) - off) and want[k] == lines[k + off]:
                k += 1
            self.bad('report', 'the report has line %d %r where %r is expected (%d lines, expected %d)' % (
                k, (lines + [''])[min(k + off, len(lines))][:300], (want + [''])[min(k, len(want))][:300], len(lines), len(want)))
            return bufs
        self.bump('reports')
        self.bump('report_lines', len(lines))
        return ok

    def tex_kw(self, p):
        kw = {}
        for a, b in (('paper', 'paper'), ('debug', 'debug'), ('pt', 'pt'), ('prog_src', 'prog')):
            if a in p:
                kw[b] = tuple(p[a]) if isinstance(p[a], list) else p[a]
        return kw

    def s_tex(self, p):
        v, e = self.lib(self.P.tex, **self.tex_kw(p))
        self.end()
        self.need(e, 'tex')
        if e is None:
            self.check_report(v, self.bufs, p)
            self.bufs = {''}
        else:
            self.bump('failed_reports')

    def export(self, p, call, bufs, check, what, cleanup):
        """common part of xpdf and gxpdf; returns the possible remaining buffers"""
        fn = p['file'] or 'prog.tex'
        root = fn[:-4] if fn.endswith('.tex') else fn
        _, e = self.lib(call)
        natural = self.natural_failure(bufs)
        if not natural:
            self.need(e, what)
        wrote_bad = any(s in ('open', 'write', 'close') and k != 'short' for s, k in self.d.fired)
        forms = []
        for f in (fn, root + '.pdf', root + '-crop.pdf'):
            s = self.d.get(f)
            if s is not None:
                if f.endswith('.pdf'):
                    s = s.split('\n', 1)[1] if s.startswith('%PDF') and '\n' in s else ''
                forms.append((f, s))
        nv = len(self.viols)
        complete, left = [], set()
        for f, s in forms:
            ok = check(s, bufs, p)
            if len(self.viols) == nv:
                complete.append(f)
                left |= ok
            else:
                why = self.viols[nv:]
                del self.viols[nv:]
        if e is None and not wrote_bad and not natural:
            self.bump('exports_ok')
            if not complete:
                self.bad('lost' if self.d.hard else 'export', '%s returned, and no complete form of the report is on disk (%s)%s' % (
                    what, [f for f, _ in forms] or 'no file', '; ' + why[0][1] if forms else ''))
            elif not self.d.hard:
                cleanup(root, fn, complete)
            return {''}
        self.bump('exports_failed')
        if wrote_bad or natural or not complete:
            return bufs             # nothing may be lost
        return bufs | {''}

    def natural_failure(self, bufs):
        """the report cannot be written in the locale's encoding"""
        try:
            for b in bufs:
                b.encode(self.d.locale)
            return False
        except UnicodeError:
            self.bump('fault:write:encoding')
            return True

    def s_xpdf(self, p):
        self.end()
        kw = self.tex_kw(p)
        kw.update({k: p[k] for k in ('crop', 'png') if k in p})
        if p.get('prog', 1) != 1:
            kw['pdfprog'] = p['prog']

        def cleanup(root, fn, complete):
            now = set(os.listdir(self.d.root))
            if p.get('prog', 1) is None:
                if fn not in complete:
                    self.bad('export', 'the report file %s is not complete' % fn)
                return
            pdf = self.d.get(root + '.pdf') or ''
            if root + '.pdf' not in complete:
                self.bad('export', 'the document %s.pdf is missing or incomplete' % root)
            elif p.get('crop') and not pdf.startswith('%PDF cropped'):
                self.bad('export', 'the document was not cropped', 'crop')
            left = [f for f in (root + '.aux', root + '.log', root + '-crop.pdf')
                    if f in now and not (f in self.files and 'crop' in f)]
            if not p.get('debug') and fn in now:
                left.append(fn)
            if left:
                self.bad('cleanup', 'intermediate files left: %s' % left)
        f = self.P.xpdf
        self.bufs = self.export(p, lambda: f(p['file'], **kw) if p.get('pos') else f(filename=p['file'], **kw),
                                self.bufs, self.check_report, 'xpdf', cleanup)

    def s_xdvi(self, p):
        self.end()

        def cleanup(root, fn, complete):
            if root + '.pdf' not in complete:
                self.bad('export', 'the document %s.pdf is missing or incomplete' % root)
        self.bufs = self.export(p, lambda: self.P.xdvi(filename=p['file']), self.bufs, self.check_report, 'xdvi', cleanup)

    # ---- gprint family
    def s_gon(self, p):
        kw = {k: p[k] for k in ('Fmode', 'Dmode') if k in p}
        _, e = self.lib(self.G.gFormat, **kw)
        self.need(e, 'gFormat')
        self.gflag = True

    def s_gprint(self, p):
        m = 'mk%d' % p['m']
        o = self.objs[p['o'] % 14]
        w = p['w']
        a = {'plain': [m], 'eq': [m + '=', o], 'two': [m + '=', o, '=', self.objs[(p['o'] + 5) % 14]], 'type': [m, int],
             'nl': [m + '=', o, r'\\ x=', o], 'first': [o, m], 'uni': [m + '\u00e9=', o]}[w]
        out, eqn = '', False
        for i, x in enumerate(a):
            if isinstance(x, str):
                out += x.replace(r'\\', '\\end{equation*}\n\\begin{equation*} ') if i else x
            elif isinstance(x, type):
                out += r' \text{' + str(x) + '} ' if self.gflag else str(x)
            else:
                out += ' %s ' % (self.P.latex(x) if self.gflag else str(x))
        f = lambda: self.G.gprint(*a)
        if self.gflag:
            s = r'\begin{equation*} ' + out + r'\end{equation*} ' + '\n'
            self.user(f, '')
            self.gbufs = {b + s for b in self.gbufs}
        else:
            self.user(f, out + '\n')
        self.bump('gprints')

    def s_gfun(self, p):
        src = inspect.getsource(shown_function)
        f = lambda: shown_function(self.G.gPrint_Function)
        if self.gflag:
            s = (r'\begin{lstlisting}[language=Python,showspaces=false,showstringspaces=false,backgroundcolor=\color{gray},'
                 r'frame=single]%s\end{lstlisting}\text{Code Output:}') % src
            self.user(f, '')
            self.gbufs = {b + s for b in self.gbufs}
        else:
            self.user(f, '\n' + 80 * '*' + '\n' + src + '\nCode output:\n\n')

    def gcheck(self, text, bufs, p):
        r = split_report(text)
        if r is None:
            self.bad('incomplete', 'the report is not one complete document: %r ... %r' % (text[:80], text[-80:]))
            return bufs
        if p.get('pt') and '[%s,' % p['pt'] not in r[0] or '{%s}' % p.get('cls', 'book') not in r[0]:
            self.bad('layout', 'the document class line is %r' % r[0][:80])
        ok = {b for b in bufs if norm(b) == norm(r[1])}
        if not ok:
            want, have = norm(sorted(bufs, key=len)[-1]), norm(r[1])
            n = len(os.path.commonprefix([want, have]))
            self.bad('report', 'the report has %r where %r is expected' % (have[n:n + 200], want[n:n + 200]))
            return bufs
        self.bump('reports')
        return ok

    def s_gxpdf(self, p):
        if self.cap:
            p = {k: v for k, v in p.items() if k != 'debug'}      # its debug output would join the captured text
        kw = self.tex_kw({k: v for k, v in p.items() if k != 'prog_src'})
        kw.update({k: p[k] for k in ('crop', 'png', 'evince', 'rm', 'null') if k in p})
        if 'cls' in p:
            kw['documentclass'] = p['cls']
        if p.get('prog', 1) != 1:
            kw['pdfprog'] = p['prog']

        def cleanup(root, fn, complete):
            now = set(os.listdir(self.d.root))
            if p.get('prog', 1) is None or p.get('debug'):
                if fn not in complete:
                    self.bad('export', 'the report file %s is not complete' % fn)
                return
            if root + '.pdf' not in complete:
                self.bad('export', 'the document %s.pdf is missing or incomplete' % root)
            elif p.get('crop') and not self.d.get(root + '.pdf').startswith('%PDF cropped'):
                self.bad('export', 'the document was not cropped', 'crop')
            if p.get('rm', True):
                left = [f for f in (root + '.aux', root + '.log', root + '-crop.pdf', fn)
                        if f in now and not (f in self.files and 'crop' in f)]
                if left:
                    self.bad('cleanup', 'intermediate files left: %s' % left)
            elif fn not in complete:
                self.bad('export', 'rm=False, but %s is not complete' % fn)
        self.gbufs = self.export(p, lambda: self.G.gxpdf(filename=p['file'], **kw), self.gbufs, self.gcheck, 'gxpdf', cleanup)


def _exec(root, steps):
    return Sim(root).run(steps)


def execute(steps):
    base = os.environ.get('TMPDIR', '/tmp')
    root = tempfile.mkdtemp(prefix='dst-desk-', dir=base)
    try:
        return fork_call(_exec, root, steps)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------ generator
PRINTS = ['plain', 'eq', 'eq', 'eq', 'op', 'eq2', 'hash', 'pct', 'hpct', 'verb', 'align', 'multi', 'end', 'empty', 'lines', 'uni', 'obj', 'obj',
          'open']
FS_FAULTS = {'open': ['EACCES', 'ENOSPC', 'EMFILE', 'EROFS', 'ENOENT', 'KI', 'ME'], 'write': ['ENOSPC', 'EIO', 'EDQUOT', 'short', 'KI'],
             'close': ['EIO', 'ENOSPC', 'EDQUOT']}
PROG_FAULTS = {'pdflatex': ['missing', 'fail', 'partial', 'killed', 'KI'], 'pdfcrop': ['missing', 'fail', 'partial', 'killed', 'KI'],
               'rm': ['fail', 'missing', 'KI'], 'mv': ['fail', 'missing', 'KI'], 'evince': ['fail', 'missing', 'KI'],
               'Pdf2Png': ['fail', 'missing'], 'xelatex': ['missing', 'fail', 'partial']}


class ReportGen:
    def __init__(self, rng, cfg):
        self.r, self.cfg = rng, cfg
        self.steps, self.m = [], 0
        self.cap = False

    def add(self, k, p=None, f=None, loc=None):
        st = {'k': k, 'p': p or {}}
        if f:
            st['f'] = f
        if loc:
            st['loc'] = loc
        self.steps.append(st)

    def mk(self):
        self.m += 1
        return self.m

    def on(self):
        r = self.r
        p = {'how': r.choice(['Format', 'Format', 'Format', 'LatexFormat', 'redirect'])}
        if r.random() < 0.4 and p['how'] != 'redirect':
            p['Fmode'] = r.random() < 0.5
            p['Dmode'] = r.random() < 0.5
        self.add('on', p)
        self.cap = True

    def say(self):
        r = self.r
        x = r.random()
        f = None
        if not self.cap and r.random() < self.cfg['epipe']:
            f = [{'seam': 'stdout', 'n': r.choice([0, 0, 1, 2]), 'kind': 'EPIPE'}]
        if x < 0.62:
            p = {'w': r.choice(PRINTS), 'm': self.mk(), 'o': r.randrange(18)}
            if p['w'] == 'multi' and r.random() < 0.5:
                p['sep'] = r.choice(['', ', ', '\n', ' = '])
            if p['w'] == 'end':
                p['end'] = r.choice(['', ' ', ' = ', '\n\n'])
            if p['w'] == 'uni' and r.random() < 0.7 and not self.cfg['uni']:
                p['w'] = 'eq'
            self.add('print', p, f)
        elif x < 0.7:
            self.add('write', {'m': self.mk(), 'nl': r.random() < 0.8}, f)
        elif x < 0.8:
            self.add('oprint', {'w': r.choice(['oprint', 'print_latex', 'function']), 'm': self.mk(), 'o': r.randrange(14)}, f)
        elif x < 0.86:
            self.add('aside', {'w': r.choice(['file', 'redirect']), 'm': self.mk(), 'o': r.randrange(18)})
        else:
            self.add('badprint', {'w': r.choice(['poison', 'poison', 'str', 'fmt', 'oprint', 'gprint', 'print_latex', 'setting', 'error']),
                                  'm': self.mk()})

    def gsay(self):
        r = self.r
        if r.random() < 0.1:
            self.add('gfun')
        else:
            w = r.choice(['plain', 'eq', 'eq', 'two', 'type', 'nl', 'first', 'uni' if self.cfg['uni'] else 'eq'])
            self.add('gprint', {'w': w, 'm': self.mk(), 'o': r.randrange(14)})

    def layout(self, p):
        r = self.r
        if r.random() < 0.2:
            p['paper'] = r.choice(['letter', 'landscape', [8, 11], [20, 30]])
        if r.random() < 0.1:
            p['pt'] = r.choice(['11pt', '12pt'])
        if r.random() < self.cfg['debug']:
            p['debug'] = True
        return p

    def faults(self, kind, p):
        r = self.r
        out = []
        if r.random() >= self.cfg['faults']:
            return out
        seams = [('open', 3), ('write', 4), ('close', 2)]
        nopdf = p.get('prog', 1) is None
        if not nopdf:
            seams += [('prog:pdflatex', 5), ('prog:rm', 2), ('prog:evince', 2)]
            if p.get('crop'):
                seams += [('prog:pdfcrop', 7)] + ([('remove', 2), ('rename', 3)] if kind == 'xpdf' else [('prog:mv', 4), ('prog:rm', 2)])
            if p.get('png'):
                seams += [('prog:Pdf2Png', 2)]
            if kind == 'xpdf':
                seams += [('input', 2)]
        if p.get('debug') or not nopdf:
            seams += [('stdout', 4 if p.get('debug') else 1)]
        if p.get('prog_src'):
            seams += [('openr', 4)]
        for _ in range(r.choice([1, 1, 1, 2])):
            s = r.choices([a for a, _ in seams], [b for _, b in seams])[0]
            f = {'seam': s, 'n': 0}
            if s in FS_FAULTS:
                f['kind'] = r.choice(FS_FAULTS[s])
                if s == 'write':
                    f['n'] = r.choice([0, 0, 0, 1])
                    f['at'] = r.choice([0, 0.1, 0.5, 0.9, 0.99])
            elif s.startswith('prog:'):
                prog = s[5:]
                if prog == 'pdflatex' and isinstance(p.get('prog'), str):
                    f['seam'], prog = 'prog:' + p['prog'], p['prog']
                f['kind'] = r.choice(PROG_FAULTS.get(prog, ['missing', 'fail']))
                if prog == 'rm':
                    f['n'] = r.choice([0, 0, 1])
            elif s in ('remove', 'rename'):
                f['kind'] = r.choice(['EACCES', 'EIO', 'KI'])
            elif s == 'input':
                f['kind'] = r.choice(['EOF', 'KI'])
            elif s == 'stdout':
                f['kind'] = r.choice(['EPIPE', 'EPIPE', 'ENOSPC'])
                f['n'] = r.randrange(6)
            elif s == 'openr':
                f['kind'] = r.choice(['ENOENT', 'EACCES'])
            out.append(f)
        return out

    def export(self, kind):
        r = self.r
        p = self.layout({'file': r.choice(NAMES)})
        x = r.random()
        if x < self.cfg['nopdf']:
            p['prog'] = None
        elif x < self.cfg['nopdf'] + 0.05:
            p['prog'] = 'xelatex'
        if r.random() < 0.4:
            p['crop'] = True
        if r.random() < 0.1:
            p['png'] = True
        if kind == 'xpdf' and r.random() < 0.12:
            p['prog_src'] = True
        if kind == 'xpdf' and r.random() < 0.2:
            p['pos'] = True
        if kind == 'gxpdf':
            for k, q in (('evince', 0.2), ('rm', 0.15), ('null', 0.2)):
                if r.random() < q:
                    p[k] = False
            if r.random() < 0.1:
                p['cls'] = 'article'
        if kind == 'xdvi':
            p = {'file': p['file']}
        loc = r.choice(['ascii', 'latin-1']) if self.cfg['uni'] and r.random() < 0.3 else None
        self.add(kind, p, self.faults('xpdf' if kind == 'xdvi' else kind, p), loc)
        if kind != 'gxpdf':
            self.cap = False

    def session(self):
        r, c = self.r, self.cfg
        for _ in range(c['length']):
            x = r.random()
            if x < c['say']:
                if c['g'] and r.random() < c['g']:
                    self.gsay()
                else:
                    self.say()
            elif x < c['say'] + c['report']:
                k = r.random()
                if c['g'] and k < c['g']:
                    self.export('gxpdf')
                elif k < 1 - c['tex']:
                    self.export(r.choice(['xpdf', 'xpdf', 'xpdf', 'xpdf', 'xdvi']))
                else:
                    p = self.layout({})
                    if r.random() < 0.15:
                        p['prog_src'] = True
                    f = []
                    if r.random() < c['faults'] and (p.get('debug') or p.get('prog_src')):
                        f = [{'seam': 'openr', 'kind': 'ENOENT', 'n': 0}] if p.get('prog_src') else \
                            [{'seam': 'stdout', 'kind': 'EPIPE', 'n': r.randrange(3)}]
                    self.add('tex', p, f)
                    self.cap = False
            else:
                k = r.random()
                if k < (0.25 if self.cap else 0.65):
                    self.on()
                elif k < 0.75:
                    self.add('off')
                    self.cap = False
                elif k < 0.82 and c['g']:
                    self.add('gon', {'Fmode': r.random() < 0.5} if r.random() < 0.3 else {})
                elif k < 0.9:
                    self.add('stream', {'t': r.randrange(3)})
                else:
                    self.add('compute', {'w': r.randrange(5)})
        return self.steps
