"""C09: exporting a report never loses it, whatever fails on the way."""
from .c08 import C08


class C09(C08):
    id = 'C09'
    runs = {'quick': 3500, 'thorough': 150000}
    rule = ('one run = one seeded program of 6-24 events over a simulated disk, terminal and programs, half of them exports '
            '(xpdf, xdvi, gxpdf, with and without typesetting, cropping, odd file names) with faults at every seam they '
            'pass: open, short or failing writes, failing close, encoding, missing, failing, killed or half-way '
            'typesetters and croppers, failing rm, mv, remove, rename, end of input, broken terminal, interrupts; the '
            'report must be on disk complete or still in memory, later exports are compared line by line, and every file '
            'that is not the report\'s must be untouched. Non-trivial: a failed export followed by a compared report.')
    measure = 'event pairs with the faults that fired'

    def cfg(self, rng):
        return {'length': rng.choice([6, 12, 18, 24]), 'say': rng.choice([0.3, 0.4, 0.5]), 'report': rng.choice([0.3, 0.4]),
                'g': rng.choice([0, 0, 0.3, 0.8]), 'tex': 0.1, 'faults': rng.choice([0.2, 0.6, 0.9]), 'epipe': 0.02,
                'uni': rng.random() < 0.25, 'debug': rng.choice([0, 0.2, 0.4]), 'nopdf': rng.choice([0.2, 0.5])}

    def judge(self, res, cnt):
        res.nontrivial = cnt.get('exports_failed', 0) >= 1 and cnt.get('reports', 0) >= 2
