"""C08: captured LaTeX reports hold exactly their own output and stdout comes back."""
from . import report
from .engine import Property, digest


class C08(Property):
    id = 'C08'
    runs = {'quick': 3000, 'thorough': 120000}
    rule = ('one run = one seeded program of 12-40 events over a simulated terminal, disk and programs: capture switched on '
            '(Format, LatexFormat, redirect; repeated), off, prints of every kind, output redirected by the caller, failing '
            'prints, broken streams, computations, reports (tex, xpdf, gxpdf) that succeed or fail; after every event the '
            'caller\'s streams, sys.stdout and the files are compared with a reference, and every report line by line with '
            'what was printed. Non-trivial: at least 2 reports compared with at least 4 lines.')
    measure = 'pairs of consecutive events x (capturing or not)'
    real = ['galgebra.printer', 'galgebra.gprinter', 'galgebra.mv, lt, dop printing', 'sympy printing', 'CPython file objects']
    stub = ['terminal streams', 'pdflatex, pdfcrop, evince, Pdf2Png, rm, mv (interpreted)', 'keyboard']
    assumptions = ['IPython is not running', 'the caller does not replace sys.stdout while capture is on (other than for a moment)']
    mix = {}

    def cfg(self, rng):
        return {'length': rng.choice([12, 20, 30, 40]), 'say': rng.choice([0.5, 0.6, 0.7]), 'report': rng.choice([0.1, 0.15, 0.25]),
                'g': rng.choice([0, 0, 0.2, 0.5]), 'tex': rng.choice([0.3, 0.7, 1.0]), 'faults': rng.choice([0, 0.3, 0.6]),
                'epipe': rng.choice([0, 0, 0.15]), 'uni': rng.random() < 0.15, 'debug': rng.choice([0, 0.15]), 'nopdf': 0.6}

    def gen(self, rng, tier, i):
        return {'steps': report.ReportGen(rng, self.cfg(rng)).session()}

    def simplify(self, plan):
        for i, s in enumerate(plan['steps']):
            for k in range(len(s.get('f') or ())):
                t = dict(s, f=s['f'][:k] + s['f'][k + 1:])
                yield dict(plan, steps=plan['steps'][:i] + [t] + plan['steps'][i + 1:])
            for k in list(s['p']):
                if k not in ('w', 'm', 'o', 'how', 'file', 't'):
                    t = dict(s, p={a: b for a, b in s['p'].items() if a != k})
                    yield dict(plan, steps=plan['steps'][:i] + [t] + plan['steps'][i + 1:])

    def run(self, plan, res):
        viols, cnt, log = report.execute(plan['steps'])
        for k, v in cnt.items():
            res.inc(k, v)
        res.inc('ops', len(plan['steps']))
        for v in viols:
            res.violate(*v)
        prev = None
        for (i, k, fired, cap, files), s in zip(log, plan['steps']):
            res.add('event_pairs', (prev, k, s['p'].get('w') or s['p'].get('how'), cap, tuple(fired)))
            prev = k
        self.judge(res, cnt)
        res.key = digest(plan['steps'])
        res.log = log
        if plan.get('run', 9) < 3:
            res.sample = {'steps': plan['steps']}

    def judge(self, res, cnt):
        res.nontrivial = cnt.get('reports', 0) >= 3 and cnt.get('report_lines', 0) >= 4
