"""Strategy parameters: the parameter object every constructor, setter and option
leaves, as value terms of the one before and of the arguments, equals that of the
specification (spec/params.cc); members the specification does not write must be
left alone.  Getters return what the specification returns."""
from ..specs import *

SPECS = ('params',)
ASSUMPTIONS = ['real arithmetic (rounding is not modelled)']


def check(ctx):
    compare_class(ctx, 'params', 'libcmaes::CMAParameters')
