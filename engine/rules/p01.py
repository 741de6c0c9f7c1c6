"""Evaluation accounting: a ghost counter is advanced at every call of the user
objective found by the analysis; at the exit of every operation of every
strategy the increments of the reported counter (solutions object) and of the
strategy's own counter must be the same value term as the increment of the
ghost counter, on all control paths."""
from ..scen import *
from ..randint import agree, differ
from ..terms import _mon

ASSUMPTIONS = ['the gradient callback supplied by the user does not count as an objective evaluation',
               'an exception thrown by the objective ends the run (no count is reported)']
GH = Loc(('ghost', 'calls'))
SOL = 'libcmaes::CMASolutions'
# operations a caller drives a strategy with (their helpers are analysed in context)
OPS = ('ask', 'eval', 'tell', 'gradf', 'gradgp', 'edm', 'stop', 'inc_iter', 'best_solution', 'plot')


class R(Rule):
    def __init__(self, base_opt=None):
        self.sites = set()
        self.base_opt = base_opt
        self.opt_calls = []
        self.rec_calls = []

    def opaque(self, f):
        # cannot reach the objective; irrelevant to the counters
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        if is_objective(n, I.P):
            self.sites.add(I.where(fr, n))
            I.rawwrite(st, GH, add(I.read_plain(st, GH), ONE))
        return None


def shown(x):
    return show(x, 5)[:220]


def decide(d, prog_side):
    """d = calls - counted.  'ok' / 'bad' / 'unknown'"""
    if d is ZERO:
        return 'ok'
    if isk(d):
        return 'bad'
    a = agree(d, ZERO)
    if a == 1.0:
        return 'ok'
    if a > 0:
        # calls and count differ on some paths only: definite when every input
        # of the difference is modelled (random draws are free inputs)
        if differ(d, ZERO, lambda x: 'distribution' in str(x.args[0])):
            return 'bad'
        return 'unknown'
    gl = [x for x in subterms(d) if isinstance(x, T) and x.op == 'loop' and x.args[-1] is GH]
    if not gl:
        return 'bad'
    # the number of calls made in some loop has no closed form: definite only
    # when nothing in the counter could account for it
    rest = [m for m in _mon(d) if not any(g in subterms(x) for x in m for g in gl)]
    if not [m for m in rest if m != ()] and not any(x.op == 'loop' and x.args[-1] is not GH for x in subterms(d) if isinstance(x, T)):
        return 'bad'
    return 'unknown'


def check(ctx):
    P = ctx.P
    solp = getter_path(P, SOL, 'fevals')
    ctx.require(solp, 'CMASolutions::fevals() as a counter')
    combos = [('', 'CovarianceUpdate'), ('pwq', 'CovarianceUpdate')]
    if ctx.tier == 'thorough':
        combos += [('', 'ACovarianceUpdate'), ('', 'VDCMAUpdate'), ('lin', 'CovarianceUpdate'), ('pwq,lin', 'VDCMAUpdate')]
    done = set()
    for gp, upd in combos:
        for lf, base in (('CMAStrategy', None), ('IPOPCMAStrategy', None), ('BIPOPCMAStrategy', None), ('ACMSurrogateStrategy', 'CMAStrategy'), ('SimpleSurrogateStrategy', 'CMAStrategy')):
            cls = sclass(P, lf, base, upd, gp)
            if cls is None:
                continue
            nev = field_named(P, cls, '_nevals')
            sol = field_named(P, cls, '_solutions')
            ctx.require(sol, 'strategy member holding the solutions')
            seen = set()
            for c in P.bases(cls):
                r = P.records.get(c)
                for m in (r or {}).get('methods', []):
                    f = P.funcs.get(m['id'])
                    if not f or 'body' not in f or f.get('ctor') or f.get('dtor') or f.get('static') or f.get('assignop') or f.get('const'):
                        continue
                    if f['name'] not in OPS or f['id'] in done:
                        continue
                    done.add(f['id'])
                    op(ctx, cls, f, nev, sol, solp, gp + upd)
            whole(ctx, cls, nev, sol, solp, gp + upd)


def op(ctx, cls, f, nev, sol, solp, tag):
    """one operation: equal increments"""
    rule = R()
    I = Interp(ctx.P, rule)
    this = Loc(('this', 'o'))
    key = '%s/%s' % (f['bare'], len(f['params']))
    try:
        res = I.run(f, this=this, dyn=cls)
    except Giveup as e:
        ctx.unk(key, f['bare'], str(e))
        return
    ctx.saw(I, f['bare'])
    for v, s, fr in res:
        verdicts(ctx, key, f, I, s, this, nev, sol, solp, rule)


def verdicts(ctx, key, f, I, s, this, nev, sol, solp, rule, start=True):
    calls = I.read_plain(s, GH)
    if start:
        calls = sub(calls, T('init', GH))
    locs = [('solutions', loc_of(this, sol, *solp))]
    if nev:
        locs.append(('strategy', loc_of(this, nev)))
    where = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
    for nm, l in locs:
        v = I.read_plain(s, l)
        dv = sub(v, T('init', l)) if start else v
        if nm == 'solutions' and start and not isnum(dv) and dv is not ZERO:
            # solutions object replaced as a whole (restart): counted per run
            pass
        if calls is ZERO and dv is ZERO:
            continue
        if nm == 'solutions' and start and replaced(I, s, this, sol):
            continue
        d = sub(calls, dv)
        r = decide(d, dv)
        kk = key + '/' + nm
        if r == 'ok':
            ctx.ok(kk, where, 'objective called %s times, counted the same' % shown(calls))
        elif r == 'bad':
            ctx.viol(kk, where, 'objective called %s times but the %s counter advances by %s' % (shown(calls), nm, shown(dv)),
                     ['objective call sites: %s' % ', '.join(sorted(rule.sites)), 'call path from %s' % f['bare']])
        else:
            ctx.unk(kk, where, 'calls=%s counted=%s' % (shown(calls), shown(dv)))


def replaced(I, s, this, sol):
    l = loc_of(this, sol)
    v = s.env.get(l)
    return v is not None and v.op != 'init'


class RW(R):
    """whole-run analysis: nested runs are summarised by the property itself"""

    def __init__(self, this, nev, sol, solp, optname, depth1):
        super().__init__()
        self.this, self.nev, self.sol, self.solp = this, nev, sol, solp
        self.depth1 = depth1
        self.inner = []

    def on_call(self, I, st, fr, n, f, o, args):
        if f['name'] == 'optimize' and o is not None and o is self.this and 'body' in f:
            # recursion / run nested in a restart loop
            depth = 0
            p = fr
            while p:
                if p.func and p.func['name'] == 'optimize':
                    depth += 1
                p = p.parent
            nested = self.depth1 and (f.get('clsb') or '').endswith('::CMAStrategy') and len(f['params']) == 3
            p = fr
            rec = False
            while p:
                if p.fid == f['id']:
                    rec = True
                p = p.parent
            if nested or rec:
                calls = I.read_plain(st, GH)
                sl, nl = loc_of(self.this, self.sol, *self.solp), loc_of(self.this, self.nev) if self.nev else None
                self.inner.append((I.silent, I.where(fr, n), calls, I.read_plain(st, sl), I.read_plain(st, nl) if nl else None, nested))
                N = T('fresh', fr.id, n['#'], 'evals')
                I.rawwrite(st, GH, add(calls, N))
                sv = I.read_plain(st, sl)
                nv = I.read_plain(st, nl) if nl else None
                # the run replaces candidates etc. but keeps the counters in step
                I.rawwrite(st, loc_of(self.this, self.sol), T('fresh', fr.id, n['#'], 'run'))
                I.rawwrite(st, sl, add(sv, N))
                if nl:
                    I.rawwrite(st, nl, add(nv, N))
                return [(T('fresh', fr.id, n['#'], 'status'), st)]
        return None


def whole(ctx, cls, nev, sol, solp, tag):
    """from construction to the end of optimize()"""
    P = ctx.P
    lf = leaf(cls)
    opt = method(P, cls, 'optimize', 0)
    if opt is None:
        ctx.unk('whole/' + lf, cls, 'no optimize()')
        return
    this = Loc(('obj', lf))
    rule = RW(this, nev, sol, solp, opt, lf in ('IPOPCMAStrategy', 'BIPOPCMAStrategy'))
    I = Interp(P, rule)
    I.budget = 1500000
    mx = getter_path(P, 'libcmaes::CMAParameters<>', 'get_maximize') if 'libcmaes::CMAParameters<>' in P.records else None
    key = 'whole-run/%s' % cls
    try:
        facts = []
        b = build(I, cls, 2, this=this)
        if not b:
            ctx.unk(key, cls, 'no constructor')
            return
        for st, th in b:
            # the objective itself, whatever wrapping the constructor made
            fl = field_named(P, cls, '_func')
            if fl:
                I.rawwrite(st, loc_of(this, fl), T('init', Loc(('parm', 'func', 0))))
            I.rawwrite(st, GH, ZERO)
            for v, s, fr in I.run(opt, this=this, dyn=cls, st=st):
                restart = rule.depth1
                calls = I.read_plain(s, GH)
                locs = [] if restart else [('solutions', loc_of(this, sol, *solp))]
                if nev:
                    locs.append(('strategy', loc_of(this, nev)))
                for nm, l in locs:
                    d = sub(calls, I.read_plain(s, l))
                    r = decide(d, None)
                    kk = key + '/' + nm
                    if r == 'ok':
                        ctx.ok(kk, cls, 'total objective calls = %s counter at the end of the run' % nm)
                    elif r == 'bad':
                        ctx.viol(kk, '%s:%s' % (model.short(opt['body']['file']), opt['body'].get('line', '?')),
                                 'after a whole run the objective has been called %s times, the %s counter says %s' % (
                                     shown(calls), nm, shown(I.read_plain(s, l))), ['objective call sites: ' + ', '.join(sorted(rule.sites))])
                    else:
                        ctx.unk(kk, cls, shown(d))
        for silent, where, calls, sv, nv, nested in rule.inner:
            if silent:
                continue
            # a nested run starts with the counters in step, or (restart) with a
            # fresh per-run counter
            for nm, v in (('solutions', sv), ('strategy', nv)):
                if v is None:
                    continue
                d = sub(calls, v)
                kk = key + '/at-restart/' + nm
                if nested and nm == 'solutions' and (v is ZERO or v.op in ('loop', 'fresh', 'sel', 'init', 'phi')):
                    ctx.ok(kk, where, 'per-run counter starts afresh')
                    continue
                r = decide(d, None)
                if r == 'ok':
                    ctx.ok(kk, where, 'counters in step at the start of a nested run')
                elif r == 'bad':
                    ctx.viol(kk, where, 'a further run starts with the %s counter at %s after %s objective calls' % (nm, shown(v), shown(calls)))
                else:
                    ctx.unk(kk, where, shown(d))
    except Giveup as e:
        ctx.unk(key, cls, str(e))
    ctx.saw(I, '%s::optimize' % lf)
