"""Points and values stay paired: the objective is kept as an uninterpreted
function of the content of its argument; whenever a candidate's value or point
is set, and in the closed form of the population after an evaluation, the value
must be the objective at that very point (or at its image under the genotype to
phenotype transform, or at the same column of the population's images)."""
import re
from ..scen import *
from ..randint import agree, differ

ASSUMPTIONS = ['the caller of eval() passes the images of the candidates as second argument (checked for the library\'s own calls)',
               'uncertainty handling and surrogate predictions set values that are not evaluations of the point; they are exempt']
CAND = 'libcmaes::Candidate'


class R(Rule):
    def __init__(self, P):
        self.f = field_named(P, CAND, '_fvalue')
        self.x = field_named(P, CAND, '_x')
        self.pend = {}
        self.evals = []
        self.stub = ()

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        if is_objective(n, I.P) and args:
            v = I.aval(st, args[0])
            c = v
            if v.op == 'addr':
                l = v.args[0]
                if l.path and l.path[-1] == ('[]', ZERO):
                    l = Loc(l.root, l.path[:-1])
                c = I.read(st, l)
            return [(T('call', 'F', c), st)]
        return None

    def on_call(self, I, st, fr, n, f, o, args):
        if f['name'] in self.stub and o is not None and fr.depth >= 1:
            if f['name'] == 'eval' and len(args) == 2:
                vs = []
                for a in args:
                    v = I.aval(st, a)
                    vs.append(v)
                if not I.silent:
                    self.evals.append((I.where(fr, n), vs, st.copy()))
            if f['name'] == 'optimize' and len(args) != 0:
                return None
            sol = field_named(I.P, f['cls'], '_solutions')
            if f['name'] in ('eval', 'tell', 'edm') and sol:
                I.rawwrite(st, Loc(o.root, o.path + (sol,)), T('fresh', fr.id, n['#'], f['name']))
            return [(T('fresh', fr.id, n['#'], 'ret'), st)]
        return None

    def on_write(self, I, st, fr, n, loc, val):
        if I.silent or not loc.path:
            return
        c = loc.path[-1]
        par = Loc(loc.root, loc.path[:-1])
        if c == self.f:
            l0, i0 = I.split_path(Loc(par.root, par.path + (self.x,)))
            x = I.proj(I.read_plain(st, l0), i0) if i0 else I.read_plain(st, l0)
            self.pend[par] = (val, x, I.where(fr, n), I.stack(fr), st.copy(), I)
        elif c == self.x:
            o = self.pend.get(par)
            if o is not None:
                self.pend[par] = (o[0], val) + o[2:]


def isF(t):
    return t.op == 'call' and t.args[0] == 'F'


def leaves(I, st, t, depth=0):
    """[(st, value)] of a gated value"""
    if t.op == 'phi' and t.args[0][0] == 'gate' and depth < 8:
        g = t.args[0][1]
        out = []
        for val, y in ((True, t.args[1]), (False, t.args[2])):
            if I.holds(st, g) is (not val):
                continue
            s = st.copy()
            I.assume(s, g, val)
            out.extend(leaves(I, s, y, depth + 1))
        return out
    if t.op == 'poly' and depth < 8:
        # numeric gates are kept as differences
        gs = [x for m, c in t.args for x in m if x.op == 'phi' and x.args[0][0] == 'gate']
        gs += [x for m, c in t.args for x in m if is_bool(x)]
        if gs:
            g0 = gs[0].args[0][1] if gs[0].op == 'phi' else gs[0]
            out = []
            for val in (True, False):
                if I.holds(st, g0) is (not val):
                    continue
                s = st.copy()
                I.assume(s, g0, val)
                m = {x: (x.args[1] if val else x.args[2]) for x in gs if x.op == 'phi' and x.args[0][1] is g0}
                if gs[0].op != 'phi':
                    m[g0] = k(val)
                out.extend(leaves(I, s, subst(t, m), depth + 1))
            return out
    return [(st, t)]


def pick(I, st, t):
    """value of t under the facts of st"""
    for _ in range(8):
        ls = leaves(I, st, t)
        if len(ls) == 1:
            return ls[0][1]
        return t
    return t


def base_index(t):
    """(base, path without indices, [indices])"""
    p = []
    if t.op == 'init':
        b, q = t.args[0].root, t.args[0].path
    elif t.op == 'sel':
        b, q = t.args[0], t.args[1]
    else:
        return None
    idx = []
    sk = []
    for c in q:
        if c[0] == '[]':
            idx.append(c[1])
            sk.append('[]')
        elif c[0] == 'v':
            idx.extend(c[2])
            sk.append(c[1])
        else:
            sk.append(c)
    return b, tuple(sk), idx


def paired(c, x):
    """'ok' | 'bad' | 'unknown': is c the point x or its image?"""
    if c is x:
        return 'ok'
    if c.op == 'call' and c.args[0].split('::')[-1] == 'pheno':
        ys = [a for a in c.args[1:] if isinstance(a, T)]
        if any(y is x for y in ys) or any(y.op == 'pt' and y.args[0] is x for y in ys):
            return 'ok'
        rs = [same(y, x) for y in ys]
        if 'ok' in rs:
            return 'ok'
        return 'bad' if 'bad' in rs and all(r == 'bad' for r in rs[-1:]) else 'unknown'
    if c.op == 'sel' and c.args[0].op == 'call' and c.args[0].args[0].split('::')[-1] == 'pheno':
        # column of the image of a population
        for y in c.args[0].args[1:]:
            if isinstance(y, T):
                z = T('sel', y, c.args[1]) if y.op != 'init' else T('init', Loc(y.args[0].root, y.args[0].path + c.args[1]))
                if z is x:
                    return 'ok'
                if same(z, x) == 'ok':
                    return 'ok'
                if same(z, x) == 'bad':
                    return 'bad'
        return 'unknown'
    # the column of the images of the population, same column
    a, b = base_index(c), base_index(x)
    if a and b and isinstance(a[0], tuple) and isinstance(b[0], tuple) and a[0][0] == b[0][0] == 'parm' and a[1] == b[1] and len(a[2]) == len(b[2]):
        if all(p is q or agree(p, q) == 1 for p, q in zip(a[2], b[2])):
            return 'ok' if (a[0][2], b[0][2]) in ((1, 0), (0, 0)) else 'bad'
        return 'bad' if any(apart(p, q) for p, q in zip(a[2], b[2])) else 'unknown'
    return same(c, x)


def apart(p, q):
    return p is not q and (agree(p, q) < 0.4 or differ(p, q))


def same(y, x):
    if y is x:
        return 'ok'
    for a, b in ((x, y), (y, x)):
        while a.op == 'st':
            a = a.args[0]
            if a is b:
                return 'bad'        # a part was overwritten
    a, b = base_index(y), base_index(x)
    if a and b and a[0] == b[0] and a[1] == b[1] and len(a[2]) == len(b[2]):
        if all(p is q or agree(p, q) == 1 for p, q in zip(a[2], b[2])):
            return 'ok'
        if any(apart(p, q) for p, q in zip(a[2], b[2])):
            return 'bad'
        return 'unknown'
    if differ(y, x):
        return 'bad'
    if agree(y, x) == 1:
        return 'ok'
    return 'unknown'


def judge(ctx, key, where, I, st, fv, xv, trace):
    """value fv recorded for point xv"""
    c = Local()
    judge_(c, key, where, I, st, fv, xv, trace)
    flush(ctx, c)


def flush(ctx, c):
    for w in ('viol', 'unk', 'ok'):
        for o in c.out:
            if o[0] == w:
                getattr(ctx, w)(*o[1:])
                return


class Local:
    def __init__(self):
        self.out = []

    def __getattr__(self, n):
        if n in ('ok', 'viol', 'unk'):
            return lambda *a: self.out.append((n,) + a)
        raise AttributeError(n)


def judge_(ctx, key, where, I, st, fv, xv, trace):
    for s, f in leaves(I, st, fv):
        fs = [t for t in subterms(f) if isinstance(t, T) and isF(t)]
        if not fs:
            # a value copied from another candidate must come with its point
            for s2, x in leaves(I, s, xv):
                if f.op != 'init' or x.op != 'init':
                    continue
                a, b = f.args[0], x.args[0]
                if a.path and b.path and a.path[-1][1].split('::')[-1] == '_fvalue' and b.path[-1][1].split('::')[-1] == '_x' and a.root == b.root:
                    if a.path[:-1] == b.path[:-1]:
                        ctx.ok(key, where, 'value and point of one candidate')
                    elif all(c[0] == '.' for c in a.path + b.path):
                        ctx.viol(key, where, 'value of %s recorded with the point %s' % (show(f, 4)[:100], show(x, 4)[:100]), trace)
            x = pick(I, s, xv)
            if f.op in ('init', 'sel') and x.op in ('init', 'sel'):
                a, b = base_index(f), base_index(x)
                if a and b and a[0] == b[0] and a[1][:-1] == b[1][:-1] and a[1][-1:] != b[1][-1:]:
                    bad = any(p is not q and agree(p, q) < 0.5 for p, q in zip(a[2], b[2]))
                    if bad:
                        ctx.viol(key, where, 'value of candidate %s recorded with the point of candidate %s' % (show(a[2][0], 3), show(b[2][0], 3)), trace)
            continue
        x = pick(I, s, xv)
        f = pick(I, s, f)
        core = f if isF(f) else None
        if core is None:
            if f.op == 'poly' and len(f.args) == 1 and len(fs) == 1:
                ctx.viol(key, where, 'recorded value is %s, not the value of the objective' % show(f, 3)[:120], trace)
            else:
                ctx.unk(key, where, show(f, 3)[:150])
            continue
        if x.op == 'call' and x.args[0] == 'mat' and x.args[1:] == (ZERO,):
            ctx.ok(key, where, 'no point recorded')
            continue
        for s2, c in leaves(I, s, core.args[1]):
            for s3, y in leaves(I, s2, x):
                r = paired(c, y)
                if r == 'ok':
                    ctx.ok(key, where, 'objective at %s' % show(y, 3)[:100])
                elif r == 'bad':
                    ctx.viol(key, where, 'the value of the objective at %s is recorded for the point %s' % (
                        show(c, 4)[:140], show(y, 4)[:140]), trace)
                else:
                    ctx.unk(key, where, 'f at %s, x=%s' % (show(c, 4)[:120], show(y, 4)[:120]))


def population(ctx, key, where, I, st, v, r, depth=0, top=None):
    """walk the closed form of the population"""
    if depth > 10:
        return
    if v.op == 'phi':
        if v.args[0][0] == 'gate':
            for val, y in ((True, v.args[1]), (False, v.args[2])):
                if I.holds(st, v.args[0][1]) is (not val):
                    continue
                s = st.copy()
                I.assume(s, v.args[0][1], val)
                population(ctx, key, where, I, s, y, r, depth + 1)
        else:
            for y in v.args[1:]:
                population(ctx, key, where, I, st, y, r, depth + 1)
    elif v.op == 'st':
        p = v.args[1]
        if top is None and len(p) > 1:
            top = v
        population(ctx, key, where, I, st, v.args[0], r, depth + 1, top)
        p = v.args[1]
        if len(p) == 1:
            c = v.args[2]
            for s, y in leaves(I, st, c):
                judge(ctx, key + '/element', where, I, s, I.proj(y, (r.f,)), I.proj(y, (r.x,)), [])
        elif len(p) == 2 and p[0][0] == '[]' and p[1] in (r.f, r.x):
            # a field of one element: the element as it ends up
            judge(ctx, key + '/element', where, I, st, I.proj(top or v, (p[0], r.f)), I.proj(top or v, (p[0], r.x)), [])
    elif v.op == 'map':
        i = T('idx')
        s = st.copy()
        I.assume(s, lt(i, v.args[1]), False)
        I.assume(s, lt(i, add(v.args[1], v.args[2])), True)
        f = I.proj(v, (('[]', i), r.f))
        x = I.proj(v, (('[]', i), r.x))
        judge(ctx, key + '/population', where, I, s, f, x, [])
        population(ctx, key, where, I, st, v.args[0], r, depth + 1)


def check(ctx):
    P = ctx.P
    ctx.require(CAND in P.records and field_named(P, CAND, '_fvalue') and field_named(P, CAND, '_x'), 'Candidate with a value and a point')
    done = set()
    items = []
    for cls in strategies(P):
        if ctx.tier == 'quick' and ('linScaling' in cls or 'VDCMA' in cls or 'ACovariance' in cls):
            continue
        lf = leaf(cls)
        for nm in ('eval', 'optimize', 'tell'):
            for c in P.bases(cls):
                for m in (P.records.get(c) or {}).get('methods', []):
                    f = P.funcs.get(m['id'])
                    if not f or 'body' not in f or f['name'] != nm or f['id'] in done:
                        continue
                    done.add(f['id'])
                    if nm == 'optimize' and ctx.tier == 'quick' and (lf == 'ESOptimizer' or 'pwq' in cls):
                        continue
                    items.append((cls, f))
    items.sort(key=lambda x: x[1]['name'] != 'optimize')
    ctx.pmap(one, items)


def one(ctx, cls, f):
    P = ctx.P
    r = R(P)
    if f['name'] == 'optimize':
        r.stub = ('eval', 'ask', 'tell', 'edm') + (('optimize',) if len(f['params']) == 3 else ())
    I = Interp(P, r)
    I.budget = 300000
    this = Loc(('this', 'o'))
    key = '%s/%d' % (f['bare'], len(f['params'])) + ('@pwq' if 'pwq' in cls else '')
    where = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
    sol = field_named(P, cls, '_solutions')
    cf = field_named(P, 'libcmaes::CMASolutions', '_candidates')
    try:
        res = I.run(f, this=this, dyn=cls)
    except Giveup as e:
        ctx.unk(key, where, str(e))
        ctx.saw(I, f['bare'])
        return
    ctx.saw(I, f['bare'])
    for par, (fv, xv, w, stack, st, I2) in r.pend.items():
        judge(ctx, '%s/%s' % (key, re.sub(r'<\d+>', '', show(Loc(par.root, par.path), 3))[:80] if par.root[0] != 'tmp' else 'new candidate'), w, I, st, fv, xv, ['call path: %s' % stack])
    if f['name'] == 'eval' and sol and cf:
        for v, s, fr in res:
            population(ctx, key, where, I, s, I.read_plain(s, loc_of(this, sol, cf)), r)
    for w, vs, st in r.evals:
        kk = key + '/images'
        a, b = vs
        c = Local()
        for s2, a2 in leaves(I, st, a):
            for s3, b2 in leaves(I, s2, b):
                if b2.op == 'call' and b2.args[0].split('::')[-1] == 'pheno':
                    p = paired(b2, a2)
                    if p == 'ok':
                        c.ok(kk, w, 'evaluates the images of the candidates')
                    elif p == 'bad':
                        c.viol(kk, w, 'evaluates %s for the candidates %s' % (show(b2, 3)[:100], show(a2, 3)[:100]))
                    else:
                        c.unk(kk, w, show(b2, 3)[:120])
                else:
                    c.unk(kk, w, show(b2, 3)[:120])
        flush(ctx, c)
