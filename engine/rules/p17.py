"""Genotype and phenotype: the custom transforms, the box bounds and the linear
scaling, against spec/geno.cc: what every transform returns and every constructor
sets up, for every vector and every bounds.  The custom transforms of the user are
uninterpreted functions of the vector they are given."""
from ..specs import *

SPECS = ('geno',)
ASSUMPTIONS = ['real arithmetic (rounding is not modelled)', 'the custom transforms of the user are functions of the vector they are given']
TRANS = 'std::function<void (const double *, double *, const int &)>'


class Geno(SpecRule):
    def opaque(self, f):
        return False

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        f = I.P.funcs.get(n.get('f'))
        if not f or f.get('cls') != TRANS or len(args) != 3:
            return None
        src, dst = I.aval(st, args[0]), I.aval(st, args[1])
        if src.op != 'addr' or dst.op != 'addr':
            return None
        I.write(st, fr, n, dst.args[0], T('call', 'transf', fn, I.read_plain(st, src.args[0])))
        return [(ZERO, st)]


def check(ctx):
    for c in ('pwqBoundStrategy', 'NoBoundStrategy', 'linScalingStrategy', 'NoScalingStrategy', 'GenoPheno'):
        compare_class(ctx, 'geno', 'libcmaes::' + c, rule=Geno)
