"""Provenance of the points handed to the user's objective: the genotype to
phenotype transform is kept as an uninterpreted function; at every reachable
call of the objective (and of the user's gradient) in a whole run of every
strategy the analysed content of the point must be an image of that transform,
an image with one coordinate moved and clamped at the user's upper bound
(finite differences), or be reached only when the transform returned nothing."""
from ..scen import *
from ..randint import agree

ASSUMPTIONS = ['the transform itself (scaling, bounds, user functions) is decided by the transform property',
               'points a caller passes directly to eval()/gradf() are the caller\'s']
GRAD = 'std::function<Eigen::Matrix'


def is_grad(n, P):
    f = P.funcs.get(n.get('f'))
    return bool(f and f['name'] == 'operator()' and f['bare'].startswith('std::function') and
                'const double *, const int &' in (f.get('cls') or '') and 'Matrix<double' in (f.get('cls') or ''))


class R(Rule):
    def __init__(self):
        self.hits = []
        self.sites = {}

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        if not I.silent and (is_objective(n, I.P) or is_grad(n, I.P)) and args:
            a = args[0]
            v = I.aval(st, a)
            self.sites[I.where(fr, n)] = n
            self.hits.append((I.where(fr, n), I.stack(fr), v, st.copy(), self.content(I, st, v)))
        return None

    def content(self, I, st, v):
        if v.op == 'addr':
            l = v.args[0]
            # &a[0] of a vector / column is the whole vector
            if l.path and l.path[-1] == ('[]', ZERO):
                l = Loc(l.root, l.path[:-1])
            return I.read(st, l)
        return v


def is_pheno(t):
    return t.op == 'call' and t.args[0].split('::')[-1] == 'pheno'


def strip(t):
    while t.op in ('sel',):
        t = t.args[0]
    return t


def is_bound(t, ub=True):
    """the user's (phenotype) bound of a coordinate, or the no-bound constant"""
    if isk(t) and kval(t) > 1e300:
        return True
    s = t
    while s.op == 'sel':
        p = s.args[1]
        if any(c[0] == '.' and 'pheno' in c[1].split('::')[-1].lower() and 'u' in c[1].split('::')[-1].lower().replace('pheno', '') for c in p):
            return True
        s = s.args[0]
    if s.op == 'init':
        return any(c[0] == '.' and 'phenoub' in c[1].lower() for c in s.args[0].path)
    if s.op == 'call' and s.args[0].split('::')[-1] == 'getPhenoUBound':
        return True
    return False


def classify(I, st, t, depth=0, busy=()):
    """'ok' | 'bad' | 'unknown' with a reason"""
    if t is None:
        return 'unknown', 'no content'
    if depth > 12:
        return 'unknown', 'deep'
    if is_pheno(t):
        return 'ok', 'image of the transform'
    if t.op == 'sel':
        # a column of a matrix of points
        if all(c[0] in ('v', '[]') for c in t.args[1]):
            return classify(I, st, t.args[0], depth + 1, busy)
        return 'unknown', 'stored point'
    if t.op == 'phi' and t.args[0][0] == 'gate':
        out = []
        g = t.args[0][1]
        for val, x in ((True, t.args[1]), (False, t.args[2])):
            s = st.copy()
            I.assume(s, g, val)
            if I.holds(st, g) is (not val) or infeasible(I, s, None):
                continue
            out.append(classify(I, s, x, depth + 1, busy))
        for r in ('bad', 'unknown', 'ok'):
            for o in out:
                if o[0] == r:
                    return o
        return 'ok', 'unreachable'
    if t.op == 'phi':
        out = [classify(I, st, x, depth + 1, busy) for x in t.args[1:]]
        if any(o[0] == 'bad' for o in out) and not isnum(t.args[1]):
            return [o for o in out if o[0] == 'bad'][0]
        if all(o[0] == 'ok' for o in out):
            return out[0]
        return 'unknown', 'join'
    if t.op == 'st':
        base, p, x = t.args
        r = classify(I, st, base, depth + 1, busy)
        if r[0] != 'ok':
            return r
        c = p[-1]
        # one coordinate of an image, clamped at the user's bound
        if len(p) == 1 and clamped(x):
            return 'ok', 'coordinate clamped at the user bound'
        y = proj_is_pheno(x)
        if y:
            return 'ok', 'coordinate of an image'
        if any(z.op in ('fresh', 'loop') for z in subterms(x) if isinstance(z, T)):
            return 'unknown', 'coordinate ' + show(x, 3)
        return 'bad', 'a coordinate of the point is replaced by %s, not clamped at the user\'s bound' % show(x, 4)[:160]
    if t.op == 'loop':
        # carried around a loop: what it starts with and what the body leaves
        info = I.loopinfo.get(t)
        if info is None or t in busy:
            return 'unknown', 'loop carried'
        e = classify(I, st, info[0], depth + 1, busy + (t,))
        bs = [classify(I, st, b, depth + 1, busy + (t,)) for b in info[1] if b is not t]
        if e[0] == 'ok' and all(b[0] == 'ok' for b in bs):
            return e
        if e[0] == 'bad' and all(b[0] == 'bad' for b in bs):
            return e
        return 'unknown', 'loop carried'
    if t.op == 'map':
        return 'unknown', 'element-wise built point'
    if t.op == 'rec':
        return classify(I, st, t.args[0], depth + 1, busy)
    if t.op == 'init':
        l = t.args[0]
        if l.root[0] == 'parm':
            return 'unknown', 'parameter of the entry point'
        return 'bad', 'the point is %s, not an image of the transform' % show(t)
    if t.op == 'poly':
        gs = []
        for m, c in t.args:
            for x in m:
                if x.op == 'phi' and x.args[0][0] == 'gate':
                    gs.append(x.args[0][1])
                elif is_bool(x):
                    gs.append(x)
        if gs:
            g = gs[0]
            out = []
            for val in (True, False):
                if I.holds(st, g) is (not val):
                    continue
                s2 = st.copy()
                I.assume(s2, g, val)
                if infeasible(I, s2, None):
                    out.append(('ok', 'not reachable'))
                    continue
                r = ZERO
                for m, c in t.args:
                    p = k(c)
                    for x in m:
                        if x is g:
                            x = k(val)
                        elif x.op == 'phi' and x.args[0] == ('gate', g):
                            x = x.args[1] if val else x.args[2]
                        p = mul(p, x)
                    r = add(r, p)
                out.append(classify(I, s2, r, depth + 1, busy))
            for r in ('bad', 'unknown', 'ok'):
                for o in out:
                    if o[0] == r:
                        return o
        ps = [x for m, c in t.args for x in m if x.op == 'phi' and x.args[0][0] != 'gate']
        if ps:
            g = ps[0].args[0]
            out = []
            for i in range(1, len(ps[0].args)):
                out.append(classify(I, st, subst(t, {x: x.args[i] for x in ps if x.args[0] == g and len(x.args) > i}), depth + 1, busy))
            for r in ('bad', 'unknown', 'ok'):
                for o in out:
                    if o[0] == r:
                        return o
    if t.op == 'poly' or t.op == 'op':
        ats = [x for x in subterms(t) if isinstance(x, T)]
        if any(is_pheno(x) for x in ats) and not any(x.op == 'init' and x.args[0].path and 'xmean' in str(x.args[0].path) for x in ats):
            # arithmetic on an image
            return 'bad', 'the point is computed from an image: %s' % show(t, 4)[:200]
        return 'bad', 'the point %s is not an image of the transform' % show(t, 4)[:200]
    if t.op == 'call':
        nm = t.args[0].split('::')[-1]
        if nm in ('block', 'matrix', 'eval', 'col', 'transpose'):
            return classify(I, st, t.args[1], depth + 1, busy)
        if any(is_pheno(x) for x in subterms(t) if isinstance(x, T)):
            return 'unknown', show(t, 3)
        return 'bad', 'the point %s is not an image of the transform' % show(t, 4)[:200]
    return 'unknown', show(t, 3)


def clamped(x):
    if x.op == 'call' and x.args[0] in ('min', 'fmin'):
        return any(is_bound(y) for y in x.args[1:])
    if x.op == 'phi' and x.args[0][0] == 'gate':
        a, b = x.args[1], x.args[2]
        g = x.args[0][1]
        return (is_bound(a) or is_bound(b)) and any(is_bound(y) for y in subterms(g) if isinstance(y, T))
    if x.op == 'poly':
        # b + [g ? a-b : 0]
        for z in subterms(x):
            if isinstance(z, T) and z.op == 'phi' and z.args[0][0] == 'gate':
                if any(is_bound(y) for y in subterms(z.args[0][1]) if isinstance(y, T)):
                    return True
        for m, c in x.args:
            for y in m:
                if is_bool(y) and any(is_bound(q) for q in subterms(y) if isinstance(q, T)):
                    return True
    return False


def proj_is_pheno(x):
    return x.op == 'sel' and is_pheno(strip(x))


def infeasible(I, st, content):
    """the call is reached only when the transform gave an empty matrix"""
    for f, v in st.facts.items():
        if any(isinstance(x, T) and x.op == 'call' and x.args[0] in ('size', 'cols', 'rows') and any(is_pheno(y) for y in subterms(x.args[1]) if isinstance(y, T))
               for x in subterms(f)):
            z = [x for x in subterms(f) if isinstance(x, T) and x.op == 'call' and x.args[0] in ('size', 'cols', 'rows')][0]
            e = I.holds(st, eq(z, ZERO))
            if e is True or (f.op == 'op' and f.args[0] == '==' and v) or (f is z and not v):
                return True
    return False


def check(ctx):
    P = ctx.P
    all_sites = {}
    for gp, upd in ((('', 'CovarianceUpdate'), ('pwq', 'CovarianceUpdate'), ('pwq', 'VDCMAUpdate')) if ctx.tier == 'quick' else
                    (('', 'CovarianceUpdate'), ('pwq', 'CovarianceUpdate'), ('pwq', 'VDCMAUpdate'), ('pwq', 'ACovarianceUpdate'), ('pwq,lin', 'CovarianceUpdate'), ('lin', 'CovarianceUpdate'))):
        for lf, base in (('CMAStrategy', None), ('ACMSurrogateStrategy', 'CMAStrategy'), ('SimpleSurrogateStrategy', 'CMAStrategy')):
            cls = sclass(P, lf, base, upd, gp)
            if cls is None:
                continue
            this = Loc(('obj', lf))
            opt = method(P, cls, 'optimize', 0)
            if opt is None:
                continue
            r = R()
            I = Interp(P, r)
            I.budget = 1500000
            try:
                for st, th in build(I, cls, 2, this=this) or []:
                    fl = field_named(P, cls, '_func')
                    if fl:
                        I.rawwrite(st, loc_of(this, fl), T('init', Loc(('parm', 'func', 0))))
                    gf = field_named(P, cls, '_gfunc')
                    if gf:
                        I.rawwrite(st, loc_of(this, gf), T('init', Loc(('parm', 'gfunc', 0))))
                    I.run(opt, this=this, dyn=cls, st=st)
            except Giveup as e:
                ctx.unk('run/' + cls, cls, str(e))
            ctx.saw(I, cls + '::optimize')
            report(ctx, I, r, gp, lf)
    # error statistics evaluate the objective themselves
    for nm in ('libcmaes::errstats::take_linear_step', 'libcmaes::errstats::optimize_vpk'):
        for f in P.find(nm):
            if 'body' not in f:
                continue
            r = R()
            I = Interp(P, r)
            rr = r.opaque
            r.opaque = lambda g: rr(g) or (g['name'] == 'cmaes' and len(g['params']) > 3)
            try:
                I.run(f)
            except Giveup as e:
                ctx.unk(nm, nm, str(e))
            ctx.saw(I, nm)
            report(ctx, I, r, '', 'errstats')


def report(ctx, I, r, gp, tag):
    for where, stack, v, st, content in r.hits:
        key = '%s/%s' % (tag, fn_of(where, stack))
        if infeasible(I, st, content):
            ctx.ok(key, where, 'not reachable: the transform always returns points')
            continue
        res, why = classify(I, st, content)
        if res == 'ok':
            ctx.ok(key, where, why)
        elif res == 'bad':
            ctx.viol(key, where, why, ['call path: ' + (stack if isinstance(stack, str) else ' <- '.join(map(str, stack)))])
        else:
            ctx.unk(key, where, why)


def fn_of(where, stack):
    fs = stack if isinstance(stack, (list, tuple)) else str(stack).split(' <- ')
    return '%s/%s' % (where, '<-'.join(str(x).split('@')[0].strip().split('::')[-1] for x in fs[:4]))
