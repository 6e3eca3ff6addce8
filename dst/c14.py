"""C14: printing changes nothing and format settings stay where they were asked for."""
import contextlib
import io
import sys

from . import faults, gencalc, genlt, gensession
from .engine import Property, digest, fork_call
from .world import OPS, Lib, Raised, Skip, slice_of

PRINTABLE = ('mv', 'mvexpr', 'fld', 'lt', 'mlt', 'dopr', 'sop', 'expr', 'matrix')
HOW = ['str', 'str', 'repr', 'latex', 'latex', 'print', 'fmt', 'fmt', 'fmtlatex', 'fmtlatex', 'html', 'call', 'call', 'ostr', 'oprint',
       'list', 'fmtlist', 'gaprinter', 'sympy', 'algebra', 'held', 'held', 'held']
COLORS = ['red', 'blue', 'bright green', None, None]
# per-call settings and session-wide settings of the LaTeX and the plain printer
LSET = [('omit_function_args', True), ('omit_partial_derivative_fraction', True), ('inv_trig_style', 'full'), ('inv_trig_style', 'power'),
        ('galgebra_mv_fmt', 2), ('galgebra_mv_fmt', 3), ('fold_frac_powers', True), ('fold_func_brackets', True), ('mul_symbol', 'dot'),
        ('mat_str', 'matrix'), ('mat_delim', '('), ('mode', 'equation'), ('itex', True), ('order', 'rev-lex'), ('ln_notation', True),
        ('fold_short_frac', True)]
PSET = [('dict_mode', True), ('order', 'rev-lex'), ('galgebra_mv_fmt', 2), ('galgebra_mv_fmt', 3), ('sympy_integers', True)]
FAILS = ['poison_str', 'poison_latex', 'poison_fmt', 'poison_fmtlatex', 'poison_call', 'poison_print', 'poison_list', 'poison_oprint',
         'poison_fmtlist', 'poison_held', 'poison_held', 'poison_swallow', 'poison_swallow', 'unknown_setting', 'fmt_type', 'bad_mode', 'poison_dop', 'poison_lt', 'bad_fmt', 'poison_printflg']


PROFILES = [[], [], ['simplify'], ['expand'], ['trigsimp'], ['expand', 'trigsimp'], ['factor']]


class Boom(Exception):
    pass


def poison(ga):
    import sympy

    class Poison(sympy.Function):
        def _latex(self, printer):
            raise Boom('latex')

        def _sympystr(self, printer):
            raise Boom('str')
    from galgebra.mv import Mv
    return ga.mv(ga.basis[0], 'scalar') if False else Mv(ga.basis[0] + Poison(sympy.Symbol('q')) * ga.blades.flat[-1], ga=ga)


def swallow(v, x):
    """prints v after trying x and living with the failure"""
    from galgebra import printer

    class Both(printer.GaPrintable):
        def _text(self, p):
            try:
                p._print(x)
            except Boom:
                pass
            return p._print(v)
        _latex = _sympystr = _text
    return Both()


class Prints:
    """print events on the values of a session"""
    def __init__(self, lib):
        self.lib = lib
        self.fmts = {}          # handles made by Fmt, kept and printed again later
        self.held = {}          # printers the user made and keeps, by settings asked for
        self.version = 0        # session-wide settings in force
        self.size = {}          # length of a value's text: long ones are printed once only

    def ga_of(self, v):
        return getattr(v, 'Ga', None)

    def keep(self, p, fresh=False):
        from galgebra import printer
        cls = printer.GaLatexPrinter if p['lang'] else printer.GaPrinter
        k = (p['lang'], repr(p['s']), self.version)
        if fresh or k not in self.held:
            new = cls({a: b for a, b in p['s'] if a in cls._default_settings})
            if fresh:
                return new
            self.held[k] = new
        return self.held[k]

    def text(self, i, p):
        from galgebra import printer
        import sympy
        v = self.lib.val.get(i, Skip)
        if v is Skip or isinstance(v, Raised):
            return None
        h = p['h']
        if i not in self.size:
            self.size[i] = len(str(v))
        if self.size[i] > 2500 and h not in ('repr', 'fmtlatex', 'latex') or self.size[i] > 300 and h in ('list', 'oprint', 'ostr', 'fmtlist'):
            return None
        if h in ('fmt', 'fmtlatex', 'html') and not hasattr(v, 'Fmt'):
            h = {'fmt': 'str', 'fmtlatex': 'latex', 'html': 'latex'}[h]
        if h == 'str':
            return str(v)
        if h == 'repr':
            return repr(v)
        if h == 'latex':
            return printer.latex(v)
        if h == 'sympy':
            return sympy.latex(v) + ' ; ' + sympy.sstr(v)
        if h == 'print':
            s = io.StringIO()
            print(v, [v], file=s)
            return s.getvalue()
        if h in ('fmt', 'fmtlatex', 'html'):
            k = (i, p['f'], p.get('t'))
            if k not in self.fmts:
                self.fmts[k] = v.Fmt(p['f'], p.get('t'))
            x = self.fmts[k]
            if h == 'html':
                return str(x._repr_latex_()) + ' ; ' + str(v._repr_latex_())
            return str(x) + ' ; ' + repr(x) if h == 'fmt' else printer.latex(x)
        if h == 'call':
            return printer.latex(v, **dict(p['s']))
        if h == 'ostr':
            return printer.ostr({'k': v, 'm': [v]}, p['f'] == 1)
        if h == 'oprint':
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                printer.oprint('k', {'m': v, 'n': [v]}, 't', v, dict_mode=p['f'] == 1)
            return s.getvalue()
        if h == 'list':
            return str([v, (v,)]) + str({'a': v}) + printer.latex([v, v]) + printer.GaLatexPrinter.latex([v, v])
        if h == 'fmtlist':
            return str(printer.Fmt([v, v], p['f'] % 2)) + str(printer.Fmt((v,), 1)) + str(printer.Fmt({'a': v}, 1))
        if h == 'gaprinter':
            d = dict(p['s'])
            return printer.GaPrinter({k: x for k, x in d.items() if k in printer.GaPrinter._default_settings}).doprint(v)
        if h == 'held':
            x = v.Fmt(p['f']) if p.get('o') and hasattr(v, 'Fmt') else v
            t = self.keep(p).doprint(x)
            u = self.keep(p, fresh=True).doprint(x)
            return t if t == u else 'kept printer %r, new printer %r' % (t, u)
        if h == 'algebra':
            ga = self.ga_of(v) or self.lib.val.get(self.lib.alg_of.get(i))
            if ga is None or not hasattr(ga, 'g'):
                return None
            return ' ; '.join([str(ga.g), printer.latex(ga.g), str(ga.blades.flat), str(ga.mv_blades.flat), printer.latex(ga.mv_basis[0]),
                               str(ga.basis), str(ga.coords)])
        raise ValueError(h)

    def one(self, i, p):
        try:
            return self.text(i, p)
        except Exception as e:
            return 'raised %s: %s' % (type(e).__name__, str(e)[:100])

    # ---- session-wide settings
    def setting(self, p):
        from galgebra import printer
        k = p['k']
        if k == 'enhance':
            (printer.Eprint if p.get('e') else printer.enhance_print)(*p['c'])
        elif k == 'default_enhance':
            printer.enhance_print()
        elif k == 'ga':
            printer.GaPrinter.set_global_settings(**dict(p['s']))
        elif k == 'galatex':
            printer.GaLatexPrinter.set_global_settings(**dict(p['s']))
        elif k == 'Fmt':
            printer.Fmt(p['v'])
        elif k == 'profile':
            import sympy
            from galgebra.metric import Simp
            Simp.profile([getattr(sympy, f) for f in p['m']])
        elif k in ('Format', 'LatexFormat', 'gFormat'):
            out = sys.stdout
            try:
                if k == 'gFormat':
                    from galgebra import gprinter
                    gprinter.gFormat(p['F'], p['D'], p['i'])
                elif k == 'Format':
                    printer.Format(p['F'], p['D'], p['i'])
                else:
                    printer.LatexFormat(p['F'], p['D'])
            finally:
                printer.GaLatexPrinter.restore()
                sys.stdout = out
        elif k == 'flag':
            # objects print as LaTeX for a while: no text below asks for it
            printer.LatexFormat(p['F'], p['D'], ipy=True)
            printer.GaLatexPrinter.restore()
            printer.GaLatexPrinter.ipy = False

    def fail(self, i, p):
        from galgebra import printer
        v = self.lib.val.get(i, Skip)
        if v is Skip or isinstance(v, Raised):
            return 'skipped'
        ga = self.ga_of(v) or self.lib.val.get(self.lib.alg_of.get(i))
        if ga is None or not hasattr(ga, 'mv'):
            return 'skipped'
        k = p['k']
        try:
            x = poison(ga)
            if k == 'poison_str':
                str(x)
            elif k == 'poison_latex':
                printer.latex(x)
            elif k == 'poison_fmt':
                str(x.Fmt(3, 'x'))
            elif k == 'poison_fmtlatex':
                printer.latex(x.Fmt(2, 'x'))
            elif k == 'poison_call':
                printer.latex(x, **dict(p['s']))
            elif k == 'poison_print':
                print(v, x.Fmt(3), file=io.StringIO())
            elif k == 'poison_printflg':
                printer.GaLatexPrinter.latex_flg = True
                try:
                    print(v, x.Fmt(3), file=io.StringIO())
                finally:
                    printer.GaLatexPrinter.latex_flg = False
            elif k == 'poison_list':
                printer.latex([v, x])
            elif k == 'poison_oprint':
                with contextlib.redirect_stdout(io.StringIO()):
                    printer.oprint('a', {'b': v, 'c': x}, dict_mode=True)
            elif k == 'poison_held':
                self.keep(p).doprint([v, x.Fmt(3)])
            elif k == 'poison_swallow':
                t = self.keep(p).doprint(swallow(v, x.Fmt(p['f'])))
                u = self.keep(p, fresh=True).doprint(v)
                if t != u:
                    return 'DIFFERS: %r after a failure in the same text, %r without' % (t, u)
            elif k == 'poison_fmtlist':
                printer.Fmt([v, x], 1)
            elif k == 'poison_dop':
                from galgebra.mv import Dop
                d = Dop([(x.obj, None)] if False else [x], [x.Ga.Pdop_identity], ga=x.Ga)
                printer.latex(d.Fmt(3)) + str(d)
            elif k == 'poison_lt':
                t = x.Ga.lt(lambda a: x | a)
                str(t) + printer.latex(t.Fmt(2, 'L'))
            elif k == 'unknown_setting':
                printer.latex(v, no_such_setting=3)
            elif k == 'fmt_type':
                printer.Fmt('three')
            elif k == 'bad_mode':
                printer.latex(v, mode='no such mode', omit_function_args=True)
            elif k == 'bad_fmt':
                printer.latex(v.Fmt('x', 3))
        except Exception as e:
            return type(e).__name__
        return 'no error'


def run_prints(steps, again=True):
    """in a forked child: the session with its print events; -> texts by event, complaints, trace"""
    lib = Lib()
    lib.run_step = None
    pr = Prints(lib)
    texts, bad, trace = {}, [], []
    seen = {}               # (value, how, settings in force) -> (text, event)
    version = 0             # settings in force
    again_n = {}
    for st in steps:
        op = st['op']
        if not op.startswith('P:'):
            lib.one(st)
            continue
        p = st['p']
        i = st['a'][0] if st['a'] else None
        if op == 'P:set':
            pr.setting(p)
            version += 1
            pr.version = version
        elif op == 'P:fail':
            trace.append((st['id'], p['k'], pr.fail(i, p)))
            if trace[-1][2].startswith('DIFFERS'):
                bad.append((st['id'], st['id'], 'the text without the failure', trace[-1][2]))
        elif op == 'P:cut':
            if lib.val.get(i, Skip) is Skip:
                continue
            counts = faults.survey(lambda: pr.one(i, p))
            pt = faults.choose(counts, p['at'])
            if pt is None:
                continue
            out = 'completed'
            try:
                with faults.Injector(pt[0], pt[1], p['exc']) as inj:
                    pr.text(i, p)
            except BaseException as e:
                out = type(e).__name__
            trace.append((st['id'], '%s at %s#%d' % (p['exc'], pt[0], pt[1]), out if inj.fired else 'not reached'))
        else:
            t = pr.one(i, p)
            if t is None:
                continue
            texts[st['id']] = t
            if t.startswith('kept printer'):
                bad.append((st['id'], st['id'], 'the text of a new printer', t))
            k = (i, repr(sorted(p.items(), key=str)), version)
            if k in seen and seen[k][0] != t:
                bad.append((st['id'], seen[k][1], seen[k][0], t))
            if len(t) < 8000:
                seen.setdefault(k, (t, st['id'], i, p, version))
        if op in ('P:fail', 'P:cut') and again:
            for (j, _, ver), (t, e, _, q, _) in list(seen.items()):
                if ver == version and (len(t) < 400 or again_n.setdefault(e, 0) < 2):
                    again_n[e] = again_n.get(e, 0) + 1
                    u = pr.one(j, q)
                    if u != t:
                        bad.append((st['id'], e, t, u))
    if again:
        for (j, _, ver), (t, e, _, q, _) in list(seen.items()):
            if ver == version:
                u = pr.one(j, q)
                if u != t:
                    bad.append(('end', e, t, u))
    return texts, bad, trace


def alone(steps, i, p, settings):
    """in a forked child: only the value and its text, under the settings in force"""
    lib = Lib()
    pr = Prints(lib)
    for st in steps:
        if st['op'] == 'P:set':
            pr.setting(st['p'])     # (the simplification profile acts on values too)
        else:
            lib.one(st)
    from galgebra import printer
    s = dict(settings)
    c = [s.pop(k, None) for k in ('basis_vector_color', 'function_color', 'derivative_color')]
    if any(c):
        printer.enhance_print(c[0], c[1], c[2])
    printer.GaLatexPrinter.set_global_settings(**s)
    return pr.one(i, p)


def settings_at(steps, event):
    """reference: the settings in force at an event"""
    s = {}
    for st in steps:
        if st['id'] == event:
            return s
        if st['op'] != 'P:set':
            continue
        p = st['p']
        k = p['k']
        if k == 'default_enhance':
            p = {'c': ['blue', 'red', 'cyan']}
            k = 'enhance'
        if k == 'enhance':
            s.update(zip(('basis_vector_color', 'function_color', 'derivative_color'), p['c']))
        elif k in ('ga', 'galatex'):
            s.update(p['s'])
        elif k == 'Fmt':
            s['galgebra_mv_fmt'] = p['v']
        elif k in ('Format', 'LatexFormat', 'gFormat', 'flag'):
            s['omit_function_args'] = p['F']
            s['omit_partial_derivative_fraction'] = p['D']
            if k in ('Format', 'gFormat'):
                s['inv_trig_style'] = p['i']
    return s


class C14(Property):
    id = 'C14'
    runs = {'quick': 500, 'thorough': 15000}
    rule = ('one run = one seeded session (algebra, calculus with operators, or linear and multilinear maps) with 8-30 print '
            'events on its values: plain, LaTeX, per-object formats kept and printed again, per-call settings, lists and '
            'dictionaries, session-wide settings switched in between, prints that fail half-way (failing coefficient, unknown '
            'settings, refused formats) or are interrupted at a seeded call; earlier texts are asked for again after every '
            'failure and at the end, and sampled texts are compared with a fresh process that builds only that object and '
            'has only the settings in force. Non-trivial: at least 4 texts compared, with a setting or failure before.')
    measure = 'pairs of consecutive print events (kind, per-call setting or failure)'
    real = ['galgebra.printer', 'galgebra.mv', 'galgebra.lt', 'galgebra.dop', 'galgebra.ga', 'sympy printing']
    stub = ['stdout (discarded or captured in memory)']
    assumptions = ['sympy printing itself is a function of the expression and the settings']

    def gen(self, rng, tier, i):
        r = rng.random()
        if r < 0.4:
            cfg = {'algs': rng.choice([1, 1, 2]), 'clients': 1, 'length': rng.choice([6, 10]), 'symbolic': rng.choice([0.0, 0.3, 0.6]),
                   'modes': 0, 'noise': 0, 'small': True}
            g = gensession.session(rng, cfg)
            steps = g.steps
        elif r < 0.7:
            steps = gencalc.session(rng, {'mans': 1, 'clients': 1, 'length': rng.choice([6, 10]), 'noise': 0, 'subs': 0.1,
                                          'dops': 0.5, 'newman': 0, 'unsimple': 0.5}).steps
        else:
            steps = genlt.session(rng, {'mans': 1, 'clients': 1, 'length': rng.choice([6, 10]), 'noise': 0, 'mlt': 0.4, 'subs': 0}).steps
        events = []
        n = rng.choice([8, 14, 22, 30])
        fail = rng.choice([0.1, 0.25])
        sets = rng.choice([0.08, 0.2])
        cut = rng.choice([0, 0.06])
        recent = []
        out = []
        targets = []
        queue = sorted([rng.randrange(len(steps) + 1) for _ in range(n)])
        nid = 100000
        for pos, st in enumerate(steps + [None]):
            while queue and queue[0] <= pos and (targets or st is None):
                queue.pop(0)
                if not targets:
                    break
                nid += 1
                out.append(self.event(rng, nid, targets, recent, fail, sets, cut))
            if st is not None:
                out.append(st)
                if OPS[st['op']].rett in PRINTABLE:
                    targets.append(st['id'])
        texts = [s['id'] for s in out if s['op'] == 'P:text']
        rng.shuffle(texts)
        # first those of a value that was printed under other settings before
        version, seen, again = 0, {}, set()
        for s in out:
            version += s['op'] == 'P:set'
            if s['op'] == 'P:text' and seen.setdefault(s['a'][0], version) != version:
                again.add(s['id'])
        texts.sort(key=lambda t: t not in again)
        return {'steps': out, 'sample': sorted(texts[:3 if tier == 'quick' else 5])}

    def printer(self, rng):
        lang = rng.choice([0, 1])
        return {'lang': lang, 's': [list(q) for q in rng.sample(LSET if lang else PSET[:4], rng.choice([0, 0, 0, 1]))]}

    def event(self, rng, nid, targets, recent, fail, sets, cut):
        x = rng.random()
        if x < sets:
            k = rng.choice(['enhance', 'enhance', 'default_enhance', 'ga', 'galatex', 'Fmt', 'Format', 'LatexFormat', 'gFormat', 'flag',
                            'profile', 'profile', 'profile'])
            p = {'k': k}
            if k == 'profile':
                p['m'] = rng.choice(PROFILES)
                return {'id': nid, 'op': 'P:set', 'a': [], 'p': p}
            if k == 'enhance':
                p['c'] = [rng.choice(COLORS) for _ in range(3)]
                p['e'] = rng.random() < 0.3
            elif k == 'ga':
                p['s'] = [list(rng.choice(PSET[:4]))]
            elif k == 'galatex':
                p['s'] = [list(rng.choice(LSET))]
            elif k == 'Fmt':
                p['v'] = rng.choice([1, 1, 2, 3])
            else:
                p.update(F=rng.random() < 0.5, D=rng.random() < 0.5, i=rng.choice(['full', 'abbreviated', 'power']))
            return {'id': nid, 'op': 'P:set', 'a': [], 'p': p}
        t = rng.choice(targets[-6:]) if rng.random() < 0.7 else rng.choice(targets)
        if x < sets + fail:
            p = {'k': rng.choice(FAILS), 's': [list(q) for q in rng.sample(LSET, 2)]}
            if p['k'] in ('poison_held', 'poison_swallow'):
                p.update(self.printer(rng), f=rng.choice([2, 3]))
            return {'id': nid, 'op': 'P:fail', 'a': [t], 'p': p}
        if recent and rng.random() < 0.3:
            t, p = rng.choice(recent)
        else:
            p = {'h': rng.choice(HOW), 'f': rng.choice([1, 2, 3])}
            if p['h'] in ('fmt', 'fmtlatex', 'html') and rng.random() < 0.4:
                p['t'] = rng.choice(['A', 'B_1'])
            if p['h'] == 'call':
                p['s'] = [list(q) for q in rng.sample(LSET, rng.choice([1, 2]))]
            if p['h'] == 'held':
                p.update(self.printer(rng), o=rng.random() < 0.3)
            if p['h'] == 'gaprinter':
                p['s'] = [list(q) for q in rng.sample(PSET, 1)] + [[rng.choice(['basis_vector_color', 'function_color']), 'red']]
            recent.append((t, p))
        if x < sets + fail + cut:
            return {'id': nid, 'op': 'P:cut', 'a': [t], 'p': dict(p, exc=rng.choice(['KI', 'ME', 'RE']), at={
                'loc': round(rng.random(), 6), 'hit': round(rng.random(), 6)})}
        return {'id': nid, 'op': 'P:text', 'a': [t], 'p': p}

    def run(self, plan, res):
        steps = plan['steps']
        texts, bad, trace = fork_call(run_prints, steps)
        by = {s['id']: s for s in steps}
        res.inc('ops', len(steps))
        res.inc('texts', len(texts))
        for _, k, out in trace:
            if out not in ('skipped', 'not reached', 'no error'):
                res.inc('fault:' + (k if k in FAILS else k.split(' ')[0]))
        for e, first, t, u in bad:
            res.violate('changed', 'text of event %s %s after event %s: %r, before it was %r; failures: %s' % (
                first, by[first]['p'], e, u, t, trace), by[first]['p'].get('h') or by[first]['p']['k'])
        core = [s for s in steps if not s['op'].startswith('P:')]
        n = 0
        for e in plan['sample']:
            if e not in texts or e not in by:
                continue
            st = by[e]
            i = st['a'][0]
            s = settings_at(steps, e)
            mine = {x['id'] for x in slice_of(core, i)}
            want = fork_call(alone, [x for x in steps[:steps.index(st)] if x['id'] in mine or
                                     x['op'] == 'P:set' and x['p']['k'] == 'profile'], i, st['p'], s)
            res.inc('alone')
            n += 1
            if want != texts[e]:
                res.violate('depends', 'text of value %d (%s) as %s, settings %s: in the session %r, alone %r; failures: %s' % (
                    i, by[i]['op'], st['p'], s, texts[e], want, trace), st['p']['h'])
        prev = None
        for s in steps:
            if s['op'].startswith('P:'):
                k = (s['op'], s['p'].get('h') or s['p'].get('k'))
                res.add('event_pairs', (prev, k))
                prev = k
        res.nontrivial = len(texts) >= 4 and n and any(s['op'] in ('P:set', 'P:fail', 'P:cut') for s in steps)
        res.key = digest(plan)
        res.log = [sorted(texts.items()), trace]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in steps]}
