"""C16: differential operators compose, add and apply as operators in every session."""
from . import gencalc
from .c02 import C02


class C16(C02):
    id = 'C16'
    runs = {'quick': 500, 'thorough': 12000}
    rule = ('one run = one seeded session over 1-3 coordinate systems in which scalar and multivector differential '
            'operators (to the right and to the left) are built, added, scaled, composed, simplified, split, printed, '
            'compared and applied, in any order and interleaved over 1-3 clients; the terms of every operator and the '
            'value of every application are compared with a reference that keeps operators as jet coefficients of '
            'covariant derivatives, and sampled values with a fresh session of their backward slice. '
            'Non-trivial: at least 4 operator values or applications compared with the reference.')
    measure = 'pairs of consecutive operator operations x kind of coordinate system x side'

    def cfg(self, rng):
        c = {'mans': rng.choice([1, 1, 2]), 'clients': rng.choice([1, 2, 3]), 'length': rng.choice([10, 14, 20]),
             'noise': rng.choice([0, 0.1, 0.25]), 'subs': 0.15, 'dops': rng.choice([0.75, 0.9])}
        if rng.random() < 0.7:
            c['patches'] = [k for k, v in gencalc.PATCHES.items() if v[1]]
        return c

    def interesting(self, s):
        return s['op'][:2] in ('o_', 's_')
