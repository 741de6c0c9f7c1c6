"""Evaluation of a generation, elitism and handling of noisy objectives against
spec/evaluate.cc: candidates, counters, uncertainty level and order."""
from ..specs import *
from .p10 import Step, member

SPECS = ('evaluate',)
ASSUMPTIONS = ['real arithmetic (rounding is not modelled)', 'the objective is a function of the point it is given', 'a block of normal draws is a function of the generator state', 'the sorts keep the order of equal elements']


class Noise(Step):
    def on_call(self, I, st, fr, n, f, oloc, args):
        if f['name'] == 'perform_uh' and oloc is not None and len(args) == 3 and args[2][0] == 'l':
            # decided on its own: how many calls it makes depends on the candidates
            o = member(I, oloc, f['cls'], '_solutions')
            c, u, r = [member(I, o, 'libcmaes::CMASolutions', x) for x in ('_candidates', '_candidates_uh', '_lambda_reev')]
            I.write(st, fr, n, args[2][1], add(I.read_plain(st, args[2][1]), T('call', 'objective', I.read_plain(st, r), I.read_plain(st, c))))
            I.write(st, fr, n, u, T('call', 'uh', I.read_plain(st, u)))
            return [(ZERO, st)]
        return None


def check(ctx):
    compare_class(ctx, 'evaluate', 'libcmaes::ESOStrategy', rule=Noise)
