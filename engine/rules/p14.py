"""The solution object: what it remembers of a run (sorted candidates, histories,
best and worst seen) and what its accessors report, against spec/solutions.cc."""
from ..specs import *

SPECS = ('solutions',)
ASSUMPTIONS = ['real arithmetic (rounding is not modelled)', 'std::vector and std::stable_sort have their documented meaning']


def check(ctx):
    compare_class(ctx, 'solutions', 'libcmaes::CMASolutions')
