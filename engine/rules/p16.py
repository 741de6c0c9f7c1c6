"""Update equations: the state left by each covariance update, as value terms of
the state before, equals the one of the specification (spec/update.cc).  Members
the specification does not write must be left alone."""
from ..scen import *
from ..specs import *

SPECS = ('update',)
ASSUMPTIONS = ['real arithmetic (rounding is not modelled)', 'Eigen operations have their documented meaning; eigen decompositions are uninterpreted']
UPD = ('CovarianceUpdate', 'ACovarianceUpdate', 'VDCMAUpdate')
SOL = 'libcmaes::CMASolutions'


def check(ctx):
    P = ctx.P
    specs = spec_funcs(P, 'update')
    pl, el, sl = Loc(('parm', 'p', 0)), Loc(('parm', 'e', 1)), Loc(('parm', 's', 2))
    fields = [f['sn'] for f in P.records.get(SOL, {}).get('fields', [])]
    ctx.require(fields, SOL)
    for u in UPD:
        fs = sorted((f for f in P.funcs.values() if f['bare'] == 'libcmaes::%s::update' % u and 'body' in f), key=lambda f: f['id'])
        ctx.require(fs, u + '::update')
        sp = specs.get('update_' + u)
        if sp is None:
            ctx.unk(u, where_of(fs[0]), 'no specification that fits the code')
            continue
        I2 = Interp(P, Rule())
        try:
            want = call_value(I2, sp, [pl, el, sl])
        except Giveup as e:
            ctx.unk(u, where_of(fs[0]), 'specification: %s' % e)
            continue
        for i, f in enumerate(fs):
            kk = '%s#%d' % (u, i)
            I = Interp(P, Rule())
            I.budget = 400000
            try:
                got = I.run(f, args={0: pl, 1: el, 2: sl})
            except Giveup as e:
                ctx.unk(kk, where_of(f), str(e))
                continue
            ctx.saw(I, f['bare'])
            if len(got) != 1 or len(want) != 1:
                ctx.unk(kk, where_of(f), '%d results' % len(got))
                continue
            compare_state(ctx, P, kk, f, I, got[0][1], I2, want[0][1], sl, SOL, fields)
