"""One generation: what is sampled, with which state, the order of the update, the
gradients, the expected distance and the two-point adaptation, against
spec/strategy.cc.  Normal draws are uninterpreted values of the generator state."""
from ..specs import *

SPECS = ('strategy',)
ASSUMPTIONS = ['real arithmetic (rounding is not modelled)', 'the objective and the gradient are functions of the point they are given', 'a block of normal draws is a function of the generator state']


class Step(SpecRule):
    def on_ext(self, I, st, fr, n, name, f, o, as_):
        if name == 'operator()' and f['bare'].startswith('std::normal_distribution') and as_ and as_[0][0] == 'l':
            g = as_[0][1]
            v = I.read_plain(st, g)
            I.write(st, fr, n, g, T('call', 'next', v))
            return [(T('call', 'draw', v), st)]
        return None


    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        # the objective and its gradient depend on the function and on the point
        f = I.P.funcs.get(n.get('f'))
        if len(args) == 2:
            x = I.aval(st, args[0])
            if x.op == 'addr':
                grad = f and 'Eigen::Matrix' in (f.get('ret') or '')
                return [(T('call', 'transf' if grad else 'objective', fn, I.read_plain(st, x.args[0])), st)]
        return None

    def on_call(self, I, st, fr, n, f, oloc, args):
        # decided on their own: the values left depend on those found
        if self.summaries and oloc is not None and f['name'] in ('tpa_update', 'uncertainty_handling') and bare(f.get('cls') or '') == ESO:
            o = member(I, oloc, f['cls'], '_solutions')
            c, t, u, s = [member(I, o, 'libcmaes::CMASolutions', x) for x in ('_candidates', '_tpa_s', '_candidates_uh', '_suh')]
            if f['name'] == 'tpa_update':
                I.write(st, fr, n, t, T('call', 'objective', I.read_plain(st, t), I.read_plain(st, c)))
            else:
                I.write(st, fr, n, s, T('call', 'objective', I.read_plain(st, s), I.read_plain(st, c)))
                I.write(st, fr, n, c, T('call', 'reranked', I.read_plain(st, c)))
                I.write(st, fr, n, u, T('call', 'uh', I.read_plain(st, u)))
            return [(ZERO, st)]
        return None

    summaries = bounded = True

    def unroll(self, I, w, n):
        return 3 if '_Node_iterator' in str(n) or n['k'] == 'RangeFor' and 'unordered_map' in str(n['range']) else 0


class Tpa(Step):
    summaries = False

    def unroll(self, I, w, n):
        return 4


class Ind(Step):
    columns = ('_transform',)


def member(I, o, cls, name):
    return o.fld(next(x['n'] for x in I.P.all_fields(cls) if x['sn'] == name))


def check(ctx):
    compare_class(ctx, 'strategy', 'Eigen::EigenMultivariateNormal', rule=Step, only=lambda n: n != 'samples_ind')
    compare_class(ctx, 'strategy', 'Eigen::EigenMultivariateNormal', rule=Ind, only=lambda n: n == 'samples_ind')
    compare_class(ctx, 'strategy', 'libcmaes::ESOStrategy', rule=Step, only=lambda n: n != 'tpa_update')
    compare_class(ctx, 'strategy', 'libcmaes::ESOStrategy', rule=Tpa, only=lambda n: n == 'tpa_update')
    compare_class(ctx, 'strategy', 'libcmaes::CMAStrategy', rule=Step)
