"""C11: linear and multilinear maps are exact and consistent in every session."""
from . import genlt
from .c02 import C02


class C11(C02):
    id = 'C11'
    runs = {'quick': 400, 'thorough': 14000}
    rule = ('one run = one seeded session over 1-3 algebras (orthogonal, skew, symbolic, Lorentzian, curvilinear, without '
            'coordinates) in which linear maps are built from matrices, dictionaries, lists, functions, versors and names, '
            'and multilinear maps from vectors, maps, names, functions and component expressions; they are added, composed, '
            'inverted, contracted, differentiated, applied, printed and refused in any order over 1-3 clients; every map is '
            'read back by applying it to the basis and compared with matrices and component tables over Taylor jets, and '
            'sampled values with a fresh session of their backward slice. '
            'Non-trivial: at least 4 maps or applications compared with the reference.')
    measure = 'pairs of consecutive map operations x kind of algebra'
    real = ['galgebra.lt', 'galgebra.ga', 'galgebra.mv', 'galgebra.metric', 'galgebra.printer', 'sympy']
    assumptions = ['sympy arithmetic is correct', 'agreement at one fixed rational point to 18 digits is equality',
                   'at most 3 slots (2 in three dimensions)']

    def gensession(self, rng):
        return genlt.session(rng, {'mans': rng.choice([1, 1, 2]), 'clients': rng.choice([1, 2, 3]), 'length': rng.choice([10, 14, 20]),
                                   'noise': rng.choice([0, 0.05, 0.12]), 'mlt': rng.choice([0.2, 0.45, 0.7])})

    def interesting(self, s):
        return s['op'][:2] in ('l_', 'm_')
