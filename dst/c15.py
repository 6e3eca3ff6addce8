"""C15: what is printed is the value."""
import contextlib
import io

import sympy
from mpmath import mpf

from . import engine, gencalc, genlt, gensession
from .c14 import FAILS, Prints
from .engine import Property, digest, fork_call
from .reading import ANSI, Latex, Lexicon, NoOpinion, Plain, Unreadable, flat_number
from .refmodel import Clifford, TINY, mv_close, mv_str
from .world import OPS, Lib, Raised, Skip, gram_of, number

READABLE = ('mv', 'mvexpr', 'fld', 'lt', 'mlt', 'dopr', 'sop', 'expr')
HOW = ['str', 'repr', 'latex', 'latex', 'fmt', 'fmt', 'fmtlatex', 'fmtlatex', 'html', 'call', 'flag', 'flagfmt', 'report', 'print']
# settings that change the form of the text, not what it denotes
LSET = [('omit_function_args', True), ('omit_function_args', False), ('omit_partial_derivative_fraction', True),
        ('omit_partial_derivative_fraction', False), ('inv_trig_style', 'full'), ('inv_trig_style', 'power'),
        ('galgebra_mv_fmt', 2), ('galgebra_mv_fmt', 3), ('galgebra_mv_fmt', 1), ('mul_symbol', 'dot'), ('ln_notation', True),
        ('order', 'rev-lex'), ('fold_frac_powers', True)]


def render(pr, i, p):
    """-> (language, text)"""
    from galgebra import printer
    v = pr.lib.val.get(i, Skip)
    if v is Skip or isinstance(v, Raised):
        return None
    h, f, t = p['h'], p['f'], p.get('t')
    fm = (lambda: v.Fmt(f, t)) if hasattr(v, 'Fmt') else (lambda: v)
    if h == 'str':
        return 'plain', str(v) if hasattr(v, 'Ga') or hasattr(v, 'terms') else printer.GaPrinter().doprint(v)
    if h == 'repr':
        return 'plain', repr(v)
    if h == 'latex':
        return 'latex', printer.latex(v)
    if h == 'fmt':
        return 'plain', repr(fm())
    if h == 'fmtlatex':
        return 'latex', printer.latex(fm())
    if h == 'html':
        x = fm()
        return 'latex', str(x._repr_latex_()) if hasattr(x, '_repr_latex_') else printer.latex(x)
    if h == 'call':
        return 'latex', printer.latex(v, **dict(p['s']))
    s = io.StringIO()
    if h == 'print':
        print(v, file=s)
        return 'plain', s.getvalue()
    old = printer.GaLatexPrinter.latex_flg
    if h in ('flag', 'flagfmt'):
        printer.GaLatexPrinter.latex_flg = True
        try:
            print(v if h == 'flag' else fm(), file=s)
        finally:
            printer.GaLatexPrinter.latex_flg = old
        return 'latex', s.getvalue()
    # a report of its own: the text as it stands in the document
    kept = printer.GaLatexPrinter.latex_str
    printer.GaLatexPrinter.latex_str = ''
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            printer.GaLatexPrinter.redirect()
            print(fm())
            doc = printer.tex()
    finally:
        printer.GaLatexPrinter.restore()
        printer.GaLatexPrinter.latex_str = kept
    return 'latex', doc.split('\\begin{document}')[1].split('\\end{document}')[0]


def basis_exprs(v):
    """the expressions an object is made of"""
    if hasattr(v, 'lt_dict'):
        return [x for k, x in v.lt_dict.items()]
    if hasattr(v, 'terms'):
        return [c.obj if hasattr(c, 'obj') else c for c, _ in v.terms]
    if hasattr(v, 'pdiffs'):
        return []
    if hasattr(v, 'fvalue'):
        return [v.fvalue.obj if hasattr(v.fvalue, 'obj') else v.fvalue]
    return [v.obj if hasattr(v, 'obj') else v]


class Judge:
    def __init__(self, lib, by):
        self.lib, self.by = lib, by

    def algebra(self, i):
        v = self.lib.val[i]
        ga = getattr(v, 'Ga', None)
        if ga is None:
            ga = self.lib.val.get(self.lib.alg_of.get(i))
        if not hasattr(ga, 'indexes_to_blades_dict'):
            raise NoOpinion('no algebra')
        return ga

    def gram(self, i, ga):
        from .ops_calc import _canon_man
        spec = self.lib.spec.get(self.lib.alg_of.get(i))
        if spec and 'kind' in spec:
            return gram_of(spec)
        return _canon_man(self.lib, ga, i)

    def value(self, i, t):
        """-> list of (label, {alpha: mv})"""
        v = self.lib.val[i]
        ga = self.algebra(i)
        zero = (0,) * len(ga.coords or ())
        if t == 'mlt':
            f = v.fvalue
            if hasattr(f, 'obj'):
                return [('', {zero: self.lib._canon(f, 'fld', i)})]
            return [('', {zero: {0: number(f)}})]
        c = self.lib._canon(v, t, i)
        if t == 'lt':
            return [(str(k), {zero: x}) for k, x in enumerate(c['cols'])]
        if t == 'dopr':
            return [('', c['t'])]
        if t == 'sop':
            return [('', {a: {0: x} for a, x in c.items()})]
        if t == 'expr':
            return [('', {zero: {0: c}})]
        return [('', {zero: c})]

    def read(self, i, t, lang, text, p):
        from galgebra import printer
        v = self.lib.val[i]
        ga = self.algebra(i)
        co = [c for c in ga.coords or ()]
        if lang == 'latex' and getattr(v, 'pdiffs', None) == {}:
            raise NoOpinion('the identity, alone, is written as nothing')
        if t in ('dopr', 'sop') and any(not isinstance(c, sympy.Symbol) for c in co):
            raise NoOpinion('coordinates')
        plain = lambda x: ANSI.sub('', printer.GaPrinter().doprint(x))
        settings = dict(p['s']) if p['h'] == 'call' else {}
        tex = (lambda x: sympy.latex(x)) if p['h'] == 'html' else (lambda x: printer.latex(x, **settings))
        exprs = basis_exprs(v)
        lex = Lexicon(exprs, list(ga.basis), co, Clifford(self.gram(i, ga)), tex, plain,
                      any(type(b).__name__ == 'BasisBladeNoWedgeSymbol' for b in ga.blades.flat))
        if lang == 'plain':
            text = ANSI.sub('', text)
        title = p.get('t') if p['h'] in ('fmt', 'fmtlatex', 'html', 'flagfmt', 'report') and hasattr(v, 'Fmt') else None
        if lang == 'latex':
            text = text.strip()
            for a, b in (('\\begin{equation*}', '\\end{equation*}'), ('\\begin{equation}', '\\end{equation}')):
                if text.startswith(a) and text.endswith(b):
                    text = text[len(a):-len(b)].strip()
            text = text.strip('$').replace('\\displaystyle', '').strip()
        if title:
            head = title + ' ='
            if not text.startswith(head):
                raise Unreadable('title %r is not in front' % title)
            text = text[len(head):]
        parser = Plain if lang == 'plain' else Latex
        if t != 'lt':
            return [('', parser(text, lex).whole())]
        # a linear map: one image per basis vector, in order
        out = []
        if lang == 'plain':
            marks = ['Lt(' + plain(b) + ') =' for b in ga.basis]
        else:
            text = text.strip()
            a, b = '\\left\\{ \\begin{aligned}', '\\end{aligned} \\right\\}'
            if not (text.startswith(a) and text.endswith(b)):
                raise Unreadable('no braces around the map')
            text = text[len(a):-len(b)]
            marks = [tex(b) + ' &\\mapsto' for b in ga.basis]
        at = 0
        for k, m in enumerate(marks):
            j = text.find(m, at)
            if j < 0 or text[at:j].strip() not in ('', '\\\\') and k == 0:
                raise Unreadable('image of vector %d is missing' % k)
            end = text.find(marks[k + 1], j) if k + 1 < len(marks) else len(text)
            if end < 0:
                raise Unreadable('image of vector %d is missing' % (k + 1))
            body = text[j + len(m):end].strip()
            if lang == 'latex' and k + 1 < len(marks) and body.endswith('\\\\'):
                body = body[:-2]
            out.append((str(k), parser(body, lex).whole()))
            at = end
        return out


def same(a, b):
    keys = set(a) | set(b)
    big = max([abs(x) for d in (a, b) for m in d.values() for x in m.values()] + [mpf(1)])
    for k in keys:
        x, y = a.get(k, {}), b.get(k, {})
        if any(abs(x.get(m, 0) - y.get(m, 0)) > mpf(10) ** -16 * big for m in set(x) | set(y)):
            return False
    return True


def show(v):
    return {k: mv_str(m) for k, m in v.items()}


def run_reads(steps):
    lib = Lib()
    pr = Prints(lib)
    by = {s['id']: s for s in steps}
    ju = Judge(lib, by)
    bad, trace, seen = [], [], []
    count = {}

    def inc(k):
        count[k] = count.get(k, 0) + 1
    for st in steps:
        op = st['op']
        if not op.startswith('P:'):
            lib.one(st)
            continue
        p = st['p']
        i = st['a'][0] if st['a'] else None
        if op == 'P:set':
            pr.setting(p)
            continue
        if op == 'P:fail':
            trace.append((st['id'], p['k'], pr.fail(i, p)))
            continue
        v = lib.val.get(i, Skip)
        if v is Skip or isinstance(v, Raised):
            continue
        t = OPS[by[i]['op']].rett
        try:
            value = ju.value(i, t)
        except Exception as e:
            inc('no value')
            continue
        if sum(len(m) for _, d in value for m in d.values()) > 40 or len(str(basis_exprs(v))) > 3000:
            inc('too long')
            continue
        try:
            r = render(pr, i, p)
        except Exception as e:
            bad.append((st['id'], 'raised', '%s: %s' % (type(e).__name__, str(e)[:200]), '', ''))
            continue
        if r is None:
            continue
        lang, text = r
        try:
            got = ju.read(i, t, lang, text, p)
        except NoOpinion as e:
            inc('no opinion')
            continue
        except Unreadable as e:
            bad.append((st['id'], 'unreadable', str(e)[:200], text[:800], [show(d) for _, d in value]))
            continue
        inc('read ' + t + ' ' + lang)
        seen.append((st['id'], text))
        if len(got) != len(value) or not all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(got, value)):
            bad.append((st['id'], 'differs', 'reads %s' % [show(d) for _, d in got], text[:800], [show(d) for _, d in value]))
    return bad, trace, count, seen


class C15(Property):
    id = 'C15'
    runs = {'quick': 500, 'thorough': 15000}
    rule = ('one run = one seeded session (algebra, calculus with operators, or linear and multilinear maps) with 8-30 print '
            'events: plain, LaTeX, per-object formats with titles, per-call and session-wide settings switched in between, the '
            'capture flag, reports, and prints that fail half-way. Every text is read back by an independent reader (signs, '
            'sums, products, wedges, powers, fractions, functions, derivatives, line breaks) and compared, as numbers at a fixed '
            'point, with the value held at that moment. Non-trivial: at least 4 texts read.')
    measure = 'pairs of consecutive print events (way of printing, kind of object)'
    real = ['galgebra.printer', 'galgebra.mv', 'galgebra.lt', 'galgebra.dop', 'galgebra.atoms', 'sympy printing']
    stub = ['stdout (captured in memory)']
    assumptions = ['the texts of single symbols and of basis vectors are taken from the printer, everything between them is read']

    def gen(self, rng, tier, i):
        cfg = {'algs': rng.choice([1, 1, 2]), 'clients': 1, 'length': rng.choice([6, 10]), 'symbolic': rng.choice([0.0, 0.3, 0.6]),
               'modes': rng.choice([0, 0.1]), 'noise': 0.05, 'small': True, 'mans': 1, 'subs': 0.1, 'dops': 0.6, 'mlt': 0.4}
        g, _ = gensession.any_session(rng, cfg, 0.6)
        steps = [s for s in g.steps]
        n = rng.choice([10, 16, 24, 30])
        fail = rng.choice([0.05, 0.15])
        sets = rng.choice([0.06, 0.15])
        out, targets = [], []
        queue = sorted([rng.randrange(len(steps) + 1) for _ in range(n)])
        nid = 100000
        for pos, st in enumerate(steps + [None]):
            while queue and queue[0] <= pos and (targets or st is None):
                queue.pop(0)
                if not targets:
                    break
                nid += 1
                out.append(self.event(rng, nid, targets, fail, sets))
            if st is not None:
                out.append(st)
                if OPS[st['op']].rett in READABLE:
                    targets.append(st['id'])
        return {'steps': out}

    def event(self, rng, nid, targets, fail, sets):
        x = rng.random()
        if x < sets:
            k = rng.choice(['enhance', 'galatex', 'galatex', 'Fmt', 'Fmt', 'Format', 'LatexFormat', 'gFormat', 'flag'])
            p = {'k': k}
            if k == 'enhance':
                p['c'] = [rng.choice(['red', 'blue', None]) for _ in range(3)]
            elif k == 'galatex':
                p['s'] = [list(rng.choice(LSET))]
            elif k == 'Fmt':
                p['v'] = rng.choice([1, 2, 3])
            else:
                p.update(F=rng.random() < 0.5, D=rng.random() < 0.5, i=rng.choice(['full', 'power']))
            return {'id': nid, 'op': 'P:set', 'a': [], 'p': p}
        t = rng.choice(targets[-6:]) if rng.random() < 0.7 else rng.choice(targets)
        if x < sets + fail:
            return {'id': nid, 'op': 'P:fail', 'a': [t], 'p': {'k': rng.choice(FAILS), 's': [list(q) for q in rng.sample(LSET, 2)]}}
        p = {'h': rng.choice(HOW), 'f': rng.choice([1, 2, 3])}
        if rng.random() < 0.3:
            p['t'] = rng.choice(['A', 'B_1'])
        if p['h'] == 'call':
            p['s'] = [list(q) for q in rng.sample(LSET, rng.choice([1, 2]))]
        return {'id': nid, 'op': 'P:read', 'a': [t], 'p': p}

    def run(self, plan, res):
        steps = plan['steps']
        bad, trace, count, seen = fork_call(run_reads, steps)
        by = {s['id']: s for s in steps}
        res.inc('ops', len(steps))
        for k, v in count.items():
            res.inc(k, v)
        for _, k, out in trace:
            if out not in ('skipped', 'no error'):
                res.inc('fault:' + k)
        for e, what, info, text, value in bad:
            i = by[e]['a'][0]
            kind = OPS[by[i]['op']].rett
            res.violate(what, 'text of value %d (%s, %s) as %s: %r; %s; the value is %s' % (
                i, by[i]['op'], kind, by[e]['p'], text, info, value), by[e]['p']['h'] + ' ' + kind)
        prev = None
        for s in steps:
            if s['op'].startswith('P:'):
                k = (s['p'].get('h') or s['p'].get('k'), OPS[by[s['a'][0]]['op']].rett if s['a'] and s['a'][0] in by else None)
                res.add('event_pairs', (prev, k))
                prev = k
        res.nontrivial = len(seen) >= 4
        res.key = digest(plan)
        res.log = [seen, trace]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps]}
