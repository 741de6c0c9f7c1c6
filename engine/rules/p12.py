"""Maximisation: every constructor of every strategy is analysed with the
maximise option on and off; the function it leaves for evaluation is applied to
a symbolic point and must return the user's value, negated exactly once when
maximising.  The same for the user's gradient as the strategies use it."""
from ..scen import *
from .p20 import leaves, Local, flush

ASSUMPTIONS = ['likelihood profiles and contours are stated for minimisation']


class R(Rule):
    def __init__(self, mx):
        self.mx = mx
        self.calls = 0

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def initial(self, I, loc):
        if loc.path and loc.path[-1][0] == '.' and loc.path[-1][1].split('::')[-1] == '_maximize':
            return k(self.mx)
        return None

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        if fn.op == 'init' and fn.args[0].root[0] == 'parm' and fn.args[0].root[2] == 0:
            self.calls += 1
            return [(T('call', 'userf', *[I.aval(st, a) for a in args]), st)]
        if fn.op == 'user-gradient':
            return [(T('call', 'userg', I.aval(st, args[0])), st)]
        return None


def check(ctx):
    P = ctx.P
    n = 0
    for cls in strategies(P):
        if ctx.tier == 'quick' and ('linScaling' in cls):
            continue
        for np in (2, 3):
            for f in ctors(P, cls, np):
                if not f['params'] or 'function' not in f['params'][0].get('t', ''):
                    continue
                for mx in (0, 1):
                    one(ctx, cls, f, np, mx)
                    n += 1
    ctx.require(n, 'strategy constructors taking an objective')
    done = set()
    for cls in strategies(P):
        f = method(P, cls, 'gradf', 1)
        if f is None or f['id'] in done:
            continue
        done.add(f['id'])
        for mx in (0, 1):
            grad(ctx, cls, f, mx)
    uses(ctx)


class U(Rule):
    """which function object do the operations evaluate?"""
    def __init__(self):
        self.seen = {}

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        if is_objective(n, I.P):
            if not I.silent:
                self.seen[(I.where(fr, n), fn)] = I.stack(fr)
            return [(T('call', 'F', fn, *[I.aval(st, a) for a in args]), st)]
        return None

    def on_call(self, I, st, fr, n, f, o, args):
        # the operations are analysed one by one
        if fr.depth >= 1 and f['id'] in self.entries:
            return [(T('fresh', fr.id, n['#'], 'ret'), st)]
        return None


def uses(ctx):
    """outside of construction every evaluation goes through the function that
    construction prepared, never through the user's function kept aside"""
    P = ctx.P
    es = {}
    for cls in strategies(P):
        if ctx.tier == 'quick' and ('linScaling' in cls or 'ACovariance' in cls):
            continue
        for c in P.bases(cls):
            for m in (P.records.get(c) or {}).get('methods', []):
                f = P.funcs.get(m['id'])
                if not f or 'body' not in f or f.get('ctor') or f['id'] in es:
                    continue
                if any(n.get('k') in ('Call', 'OpCall', 'MCall') and is_objective(n, P) for n in walk(f['body'])):
                    es[f['id']] = (cls, f)
    ctx.require(es, 'operations that evaluate the objective')
    ids = set(es)
    for i, (cls, f) in es.items():
        r = U()
        r.entries = ids
        I = Interp(P, r)
        I.budget = 200000
        this = Loc(('this', 'o'))
        fl, al = field_named(P, cls, '_func'), field_named(P, cls, '_funcaux')
        key = '%s/%d/evaluates' % (f['bare'], len(f['params']))
        where = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
        st = St()
        ev = T('evaluation-function')
        I.rawwrite(st, loc_of(this, fl), ev)
        try:
            I.run(f, this=this, dyn=cls, st=st)
        except Giveup as e:
            ctx.unk(key, where, str(e))
        ctx.saw(I, f['bare'])
        for (w, fn), stack in sorted(r.seen.items(), key=lambda x: x[0][0]):
            if fn is ev:
                ctx.ok(key, w, 'through the prepared function')
            elif al and fn.op == 'init' and fn.args[0].path[-1:] == (al,):
                ctx.viol(key, w, 'evaluates the function kept aside, whose sign is not adapted to maximisation', ['call path: %s' % stack])
            else:
                ctx.unk(key, w, show(fn, 3)[:120])


def judge(ctx, key, where, v, user, mx, what):
    want = neg(user) if mx else user
    if v is want:
        ctx.ok(key, where, 'the %s%s' % ('negated ' if mx else '', what))
    elif user in subterms(v) and v is not (user if mx else neg(user)) and (not isnum(v) or any(user in subterms(x) and x is not user for m, c in v.args for x in m) if v.op == 'poly' else True) and v is not user:
        ctx.unk(key, where, show(v, 4))
    elif v.op in ('fresh', 'loop', 'sel', 'phi') or user not in subterms(v) and v.op == 'call':
        ctx.unk(key, where, show(v, 4))
    else:
        ctx.viol(key, where, '%s is %s when %s' % (what, show(v, 4)[:120], 'maximising' if mx else 'minimising'))


def one(ctx, cls, f, np, mx):
    P = ctx.P
    key = '%s/%d/%s' % (cls, np, 'maximise' if mx else 'minimise')
    r = R(mx)
    I = Interp(P, r)
    I.budget = 400000
    this = Loc(('obj', 's'))
    where = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
    fl = field_named(P, cls, '_func')
    if fl is None:
        ctx.unk(key, where, 'no evaluation function member')
        return
    try:
        for v, s, fr in I.run(f, this=this, dyn=cls):
            fv = I.read_plain(s, loc_of(this, fl))
            x, N = T('pt0'), T('dim0')
            c = Local()
            for s1, fv1 in leaves(I, s, fv):
                for w, s2 in I.apply(fv1, [('v', x), ('v', N)], {'#': -7, 'k': 'Call'}, s1.copy(), fr, None):
                    if isinstance(w, Loc):
                        w = I.read(s2, w)
                    for s3, w3 in leaves(I, s2, w):
                        judge(c, key, where, w3, T('call', 'userf', x, N), mx, 'value of the objective used for ranking')
            flush(ctx, c)
    except Giveup as e:
        ctx.unk(key, where, str(e))
    ctx.saw(I, f['bare'])


def grad(ctx, cls, f, mx):
    P = ctx.P
    r = R(mx)
    I = Interp(P, r)
    this = Loc(('obj', 's'))
    key = '%s/user gradient/%s' % (cls, 'maximise' if mx else 'minimise')
    where = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
    gl = field_named(P, cls, '_gfunc')
    if gl is None:
        ctx.unk(key, where, 'no gradient member')
        return
    st = St()
    g = T('user-gradient')
    I.rawwrite(st, loc_of(this, gl), g)
    for t in (eq(g, T('null')), eq(g, ZERO)):
        I.assume(st, t, False)
    I.assume(st, truth_term(g), True)
    try:
        for v, s, fr in I.run(f, this=this, dyn=cls, st=st):
            if isinstance(v, Loc):
                v = I.read(s, v)
            us = [t for t in subterms(v) if isinstance(t, T) and t.op == 'call' and t.args[0] == 'userg']
            if not us:
                ctx.unk(key, where, show(v, 4))
                continue
            judge(ctx, key, where, v, us[0], mx, 'user gradient')
    except Giveup as e:
        ctx.unk(key, where, str(e))
    ctx.saw(I, f['bare'])
