"""Restarts: state left by the restart steps and by whole restarted runs, as value
terms over the outcomes of the single runs, against spec/restart.cc.  A single run
(CMAStrategy::optimize) is an uninterpreted function of what it starts from, and so
are the parameter initialisation and the fresh solution object (decided by other
properties); restarts are followed one by one, a bounded number of them."""
from ..specs import *

SPECS = ('restart',)
ASSUMPTIONS = ['real arithmetic (rounding is not modelled)', 'a single run, the derived parameters and the initial solution object are functions of what they start from']
STR = 'libcmaes::CMAStrategy'
RESULT = ('_solutions', '_nevals')
RUNS = Loc(('glob', '#runs'))


class Restart(SpecRule):
    followed = 4

    def on_ctor(self, I, st, fr, n, f, loc, as_):
        if f is not None and f.get('cls') == 'libcmaes::CMASolutions' and len(f['params']) == 1 and as_ and not f.get('copyctor') and not f.get('movector'):
            p = as_[0][1] if as_[0][0] == 'l' else None
            if p is not None:
                d = [I.read_plain(st, p.fld(q)) for q in params(I.P)]
                I.write(st, fr, n, loc, T('call', 'obj:libcmaes::CMASolutions', *d))
                return [st]
        return None

    def on_call(self, I, st, fr, n, f, o, as_):
        if f['bare'] == STR + '::optimize' and len(f['params']) == 3 and o is not None:
            deps = self.deps(I, st, o)
            fl = fields(I.P, f['cls'])
            sol = o.fld(fl['_solutions'])
            I.write(st, fr, n, sol, T('call', 'obj:libcmaes::CMASolutions', T('call', 'run', *deps)))
            ne = o.fld(fl['_nevals'])
            I.write(st, fr, n, ne, add(I.read_plain(st, ne), T('call', 'floor', mul(k(50), T('call', 'runevals', *deps)))))
            I.write(st, fr, n, o.fld(fl['_niter']), T('call', 'floor', mul(k(50), T('call', 'runiter', *deps))))
            I.write(st, fr, n, RUNS, T('call', 'run', *deps))
            return [(T('call', 'runret', *deps), st)]
        if f['name'] == 'initialize_parameters' and o is not None and (f.get('clsb') or '').endswith('CMAParameters'):
            ds = [I.read_plain(st, o.fld(q)) for q in params(I.P)]
            for q in params(I.P):
                sn = q.split('::')[-1]
                if sn in ('_mu', '_csigma'):
                    v = T('call', 'derived' + sn, *ds)
                    I.write(st, fr, n, o.fld(q), v if sn != '_mu' else T('call', 'floor', mul(k(9), v)))
            return [(ZERO, st)]
        return None

    def on_ext(self, I, st, fr, n, name, f, o, as_):
        if name == 'operator()' and f['bare'].startswith('std::uniform_real_distribution') and as_ and as_[0][0] == 'l':
            g = as_[0][1]
            v = I.read_plain(st, g)
            I.write(st, fr, n, g, T('call', 'next', v))
            return [(T('call', 'draw', v), st)]
        return None

    def deps(self, I, st, o):
        P = I.P
        fl = None
        for c in P.records:
            if bare(c) == STR:
                fl = fields(P, c)
                break
        ps = o.fld(fl['_parameters'])
        so = o.fld(fl['_solutions'])
        out = [I.read_plain(st, ps.fld(q)) for q in params(P)]
        sf = fields(P, 'libcmaes::CMASolutions')
        out += [I.read_plain(st, so.fld(sf[x])) for x in ('_xmean', '_sigma', '_niter')]
        out += [I.read_plain(st, o.fld(fl['_niter']))]
        return out

    def unroll(self, I, w, n):
        return self.followed if RUNS in w else 0

    def cut(self, I, st):
        for l, v in list(st.env.items()):
            if v.op not in ('lam', 'fn', 'bind', 'addr', 'iter', 'str', 'null'):
                st.env[l] = T('cut')


class Short(Restart):
    followed = 2


def fields(P, cls):
    return {f['sn']: f['n'] for f in P.all_fields(cls)}


def params(P):
    c = next(c for c in sorted(P.records) if bare(c) == 'libcmaes::CMAParameters')
    fl = fields(P, c)
    return [fl[x] for x in ('_dim', '_lambda', '_mu', '_sigma_init', '_max_fevals', '_csigma')]


def okcall(x):
    return str(x.args[0]).startswith(('obj:', 'run', 'derived', 'draw', 'next', 'empty_', 'new_'))


def keep(f, n):
    # of a whole restarted run: what it reports
    return n in RESULT if f == 'optimize' else True


def check(ctx):
    for cls, rule in (('IPOPCMAStrategy', Restart), ('BIPOPCMAStrategy', Short)):
        compare_class(ctx, 'restart', 'libcmaes::' + cls, okcall, rule=rule, keep=keep)
