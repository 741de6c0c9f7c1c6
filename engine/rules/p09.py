"""Stopping criteria: the function registered for every code is applied to
symbolic parameters and solutions; it may return only its own code or 'continue',
and its value must equal the one of the specification (spec/stop.cc) as a value
term.  stop() must return the first active criterion that fires, the strategies
must record that code as run status, and optimize() must report an error exactly
for negative codes.  Every code needs a message."""
from ..scen import *
from ..specs import *
from .p20 import leaves, Local, flush

SPECS = ('stop',)
ASSUMPTIONS = ['comparisons x != x + e are compared as real arithmetic (rounding is not modelled)']
CRIT = 'libcmaes::CMAStopCriteria'


class Reg(Rule):
    """collects the registered criteria"""
    def __init__(self):
        self.ins = []

    def on_call(self, I, st, fr, n, f, o, args):
        if f['name'] in ('insert', 'emplace', 'insert_or_assign') and o is not None and o.path and o.path[-1][1].split('::')[-1] == '_scriteria' and not I.silent:
            self.ins.append(([I.aval(st, a) for a in args], I.where(fr, n)))
        return None


def part(t, suffix):
    if t.op == 'rec':
        for p, v in t.args[1]:
            if p[-1][1].endswith(suffix):
                return v
    return None


def registered(ctx, cls):
    """[(code, function value, interpreter, state, frame, where)]"""
    P = ctx.P
    f = ctors(P, cls, 0)[0]
    r = Reg()
    I = Interp(P, r)
    I.budget = 300000
    out = []
    for v, s, fr in I.run(f, this=Loc(('this', 'o')), dyn=cls):
        for vals, w in r.ins:
            key = fn = None
            for x in vals:
                if x.op == 'rec' and part(x, '::first') is not None:
                    key, x = part(x, '::first'), part(x, '::second')
                elif isk(x) and key is None:
                    key = x
                    continue
                if x is not None and x.op == 'rec':
                    fn = part(x, '::_sfunc') or fn
                elif x is not None and x.op == 'lam':
                    fn = x
            out.append((key, fn, I, s, fr, w))
        break
    ctx.saw(I, f['bare'])
    return out


def messages(P):
    """codes with a message, per specialisation of the table"""
    out = {}
    for k_, v in P.vars.items():
        if v['q'].split('::')[-1] == '_scriterias' and 'init' in v:
            codes = set()
            for n in walk(v['init']):
                if n.get('k') == 'Enum':
                    codes.add(n.get('v'))
                elif n.get('k') == 'Lit' and isinstance(n.get('v'), int) and n.get('t') == 'int':
                    codes.add(n['v'])
            out[v['q']] = (codes, '%s:%s' % (model.short(v['file']), v['line']))
    return out


def check(ctx):
    P = ctx.P
    cs = [c for c in sorted(P.records) if bare(c) == CRIT and ctors(P, c, 0)]
    ctx.require(cs, CRIT)
    enum = {}
    for e, d in P.enums.items():
        if e.endswith('CMAStopCritType'):
            enum = {x['n'].split('::')[-1]: x['v'] for x in d['consts']}
    names = {v: n for n, v in enum.items()}
    specs = spec_funcs(P, 'stop')
    msgs = messages(P)
    ctx.require(msgs, 'table of the messages')
    for cls in cs:
        regs = registered(ctx, cls)
        seen = set()
        for key, fn, I, s, fr, w in regs:
            if key is None or not isk(key) or fn is None:
                ctx.unk('%s/registration' % cls, w, 'registration not understood')
                continue
            code = kval(key)
            nm = names.get(code, str(code))
            kk = '%s/%s' % (cls, nm)
            if code in seen:
                ctx.viol(kk + '/once', w, 'the code %s is registered twice: the second criterion is never used' % code)
            else:
                ctx.ok(kk + '/once', w, 'registered once')
            seen.add(code)
            one(ctx, kk, cls, code, nm, fn, I, s, fr, w, specs)
        for nm, code in enum.items():
            if code == 0:
                continue
            if code in seen:
                ctx.ok('%s/%s/registered' % (cls, nm), '', 'registered')
            else:
                ctx.viol('%s/%s/registered' % (cls, nm), where_of(ctors(P, cls, 0)[0]), 'no criterion is registered for the documented code %s' % nm)
        for q, (codes, w) in msgs.items():
            for code in seen | {0}:
                kk = '%s/%s/message' % (q, names.get(code, code))
                if code in codes:
                    ctx.ok(kk, w, 'has a message')
                else:
                    ctx.viol(kk, w, 'no message for the status %s' % code)
        stopf(ctx, cls, specs)
    run_status(ctx)


def where_of(f):
    return '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))


def one(ctx, kk, cls, code, nm, fn, I, s, fr, w, specs):
    cmap, cmas = Loc(('parm', 'cmap', 0)), Loc(('parm', 'cmas', 1))
    f = ctx.P.funcs.get(fn.args[0]) if fn.op in ('lam', 'fn') else None
    where = where_of(f) if f and 'body' in f else w
    try:
        rs = I.apply(fn, [('l', cmap), ('l', cmas)], {'#': -7, 'k': 'Call'}, s.copy(), fr, None)
        vals = [I.read(s2, v) if isinstance(v, Loc) else v for v, s2 in rs]
    except (Giveup, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        ctx.unk(kk + '/code', where, str(e)[:100])
        return
    ctx.saw(I)
    if len(vals) != 1:
        ctx.unk(kk + '/code', where, '%d results' % len(vals))
        return
    v = vals[0]
    c = Local()
    for s3, x in leaves(I, St(), v):
        y = x
        if is_bool(y):
            y = ONE
        if isk(y) and kval(y) in (0, code):
            c.ok(kk + '/code', where, 'returns its own code or continue')
        elif isk(y):
            c.viol(kk + '/code', where, 'the criterion registered for %s can return %s' % (nm, kval(y)))
        elif x.op == 'phi':
            bad = [a for a in x.args[1:] if isk(a) and kval(a) not in (0, code)]
            (c.viol if bad else c.ok)(kk + '/code', where, 'the criterion registered for %s can return %s' % (nm, [kval(a) for a in bad]) if bad else 'its own code')
        else:
            c.unk(kk + '/code', where, show(x, 4)[:150])
    flush(ctx, c)
    sp = specs.get('crit_' + nm)
    if sp is None:
        ctx.unk(kk + '/meaning', where, 'no specification that fits the code')
        return
    I2 = Interp(ctx.P, Rule())
    try:
        rs = call_value(I2, sp, [cmap, cmas])
    except Giveup as e:
        ctx.unk(kk + '/meaning', where, str(e))
        return
    judge_equal(ctx, kk + '/meaning', where, v, rs[0][0], 'the value of the criterion')


class Opq(Rule):
    """user and criterion functions stay uninterpreted"""
    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        return [(T('call', 'uf', fn), st)]

    def on_call(self, I, st, fr, n, f, o, args):
        if f['name'] == 'stop' and bare(f.get('cls') or '') == CRIT and fr.depth >= 0 and o is not None and getattr(self, 'stub', False):
            return [(T('call', 'stopcode'), st)]
        if f['name'] in ('plot',) and getattr(self, 'stub', False):
            return [(None, st)]
        return None


def stopf(ctx, cls, specs):
    P = ctx.P
    f = method(P, cls, 'stop', 2)
    ctx.require(f, 'stop() of the criteria')
    kk = '%s/stop' % cls
    cmap, cmas, this = Loc(('parm', 'cmap', 0)), Loc(('parm', 'cmas', 1)), Loc(('crit',))
    I = Interp(P, Opq())
    try:
        rs = I.run(f, this=this, dyn=cls, args={0: cmap, 1: cmas})
        ctx.saw(I, f['bare'])
        sp = specs.get('first_criterion')
        if sp is None:
            ctx.unk(kk, where_of(f), 'no specification that fits the code')
            return
        I2 = Interp(P, Opq())
        want = call_value(I2, sp, [this, cmap, cmas])
    except Giveup as e:
        ctx.unk(kk, where_of(f), str(e))
        return
    if len(rs) != 1 or len(want) != 1:
        ctx.unk(kk, where_of(f), '%d results' % len(rs))
        return
    a, b = norm(rs[0][0]), norm(want[0][0])
    judge_calls(ctx, kk, where_of(f), a, b, 'the code of the first active criterion that fires')


def norm(t):
    """iteration symbols of the two analyses are the same"""
    return t


def judge_calls(ctx, key, where, got, want, what):
    """both sides call the same uninterpreted functions"""
    r = equal(got, want, okcall=lambda x: x.args[0] in ('uf', 'stopcode'))
    if r == 'yes':
        ctx.ok(key, where, '%s as specified' % what)
    elif r == 'no':
        ctx.viol(key, where, '%s: got %s, specified %s' % (what, show(got, 6)[:220], show(want, 6)[:220]))
    else:
        ctx.unk(key, where, 'cannot compare %s with %s' % (show(got, 5)[:160], show(want, 5)[:160]))


def run_status(ctx):
    """strategy level: the code is recorded and reported"""
    P = ctx.P
    done = set()
    for cls in strategies(P):
        if 'linScaling' in cls or 'VDCMA' in cls or 'ACovariance' in cls:
            continue
        f = method(P, cls, 'stop', 0)
        if f and f['id'] not in done:
            done.add(f['id'])
            stop_status(ctx, cls, f)
        f = method(P, cls, 'optimize', 3)
        if f and f['id'] not in done:
            done.add(f['id'])
            opt_status(ctx, cls, f)
    ctx.require(done, 'stop() of the strategies')


def stop_status(ctx, cls, f):
    P = ctx.P
    r = Opq()
    r.stub = True
    I = Interp(P, r)
    this = Loc(('strat',))
    sol, rsn = field_named(P, cls, '_solutions'), field_named(P, 'libcmaes::CMASolutions', '_run_status')
    nit = field_named(P, cls, '_niter')
    pf = field_named(P, cls, '_pfunc')
    kk = '%s' % f['bare']
    if not (sol and rsn and nit and pf):
        ctx.unk(kk, where_of(f), 'members not found')
        return
    try:
        rs = I.run(f, this=this, dyn=cls)
    except Giveup as e:
        ctx.unk(kk, where_of(f), str(e))
        return
    ctx.saw(I, f['bare'])
    if len(rs) != 1:
        ctx.unk(kk, where_of(f), '%d results' % len(rs))
        return
    v, s, fr = rs[0]
    st0 = T('init', loc_of(this, sol, rsn))
    niter0 = eq(T('init', loc_of(this, nit)), ZERO)
    code = T('call', 'stopcode')
    prog = truth_term(T('call', 'uf', T('init', loc_of(this, pf))))
    err = lt(st0, ZERO)
    want = or_(err, or_(prog, and_(not_(niter0), truth_term(code))))
    ok = lambda x: x.args[0] in ('uf', 'stopcode')
    got = truth_term(v) if isinstance(v, T) else v
    wst = T('phi', ('gate', or_(err, or_(prog, niter0))), st0, code)
    gst = I.read_plain(s, loc_of(this, sol, rsn))
    for k2, a, b, what in (('/decision', got, want, 'whether to stop'), ('/status', gst, wst, 'recorded run status')):
        rr = equal(a, b, okcall=ok)
        if rr == 'yes':
            ctx.ok(kk + k2, where_of(f), what + ' as specified')
        elif rr == 'no':
            ctx.viol(kk + k2, where_of(f), '%s is %s, specified %s' % (what, show(a, 6)[:200], show(b, 6)[:200]))
        else:
            ctx.unk(kk + k2, where_of(f), show(a, 6)[:200])


class Runs(Rule):
    """the run itself is replaced by an arbitrary change of the solutions"""
    def __init__(self, P, cls):
        self.sol = field_named(P, cls, '_solutions')

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        return [(T('fresh', fr.id, n['#'], 'uf'), st)]

    def on_call(self, I, st, fr, n, f, o, args):
        if fr.depth >= 0 and f['name'] in ('eval', 'ask', 'tell', 'edm', 'stop', 'optimize', 'reset_search_state', 'lambda_inc', 'capture_best_solution', 'r1', 'r2', 'plot') and o is not None:
            if f['name'] in ('optimize', 'stop', 'reset_search_state', 'tell', 'edm', 'capture_best_solution'):
                if f['name'] == 'optimize' and fr.parent is None and len(args) != 3:
                    return None
                I.rawwrite(st, Loc(o.root, o.path + (self.sol,)), T('fresh', fr.id, n['#'], f['name']))
            for a in args:
                if isinstance(a, tuple) and a[0] == 'l' and f['name'] == 'capture_best_solution':
                    I.rawwrite(st, a[1], T('fresh', fr.id, n['#'], 'best'))
            return [(T('fresh', fr.id, n['#'], 'ret'), st)]
        return None


def opt_status(ctx, cls, f):
    P = ctx.P
    r = Runs(P, cls)
    I = Interp(P, r)
    I.budget = 300000
    this = Loc(('strat',))
    rsn = field_named(P, 'libcmaes::CMASolutions', '_run_status')
    kk = '%s/result' % f['bare']
    try:
        rs = I.run(f, this=this, dyn=cls)
    except Giveup as e:
        ctx.unk(kk, where_of(f), str(e))
        return
    ctx.saw(I, f['bare'])
    c = Local()
    for v, s, fr in rs:
        rst = I.read_plain(s, loc_of(this, r.sol, rsn))
        # under 'status is negative' the result is negative and conversely
        for sgn in (True, False):
            s2 = s.copy()
            if not I.assume(s2, lt(rst, ZERO), sgn):
                continue
            for s3, x in leaves(I, s2, v):
                neg_ = I.holds(s3, lt(x, ZERO))
                if neg_ is sgn:
                    c.ok(kk, where_of(f), 'error code exactly for negative status')
                elif neg_ is None:
                    c.unk(kk, where_of(f), show(x, 4)[:100])
                else:
                    c.viol(kk, where_of(f), 'returns %s when the run status is %s' % (show(x, 3), 'negative' if sgn else 'not negative'))
    flush(ctx, c)
