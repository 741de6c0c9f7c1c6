"""Algorithm selection: the entry functions are analysed once per algorithm
code with and without given solutions; at the point where the run starts, the
class of the optimizer that was built, the flags of its parameters, the
functions installed in it and what the entry function returns are compared with
the table of documented algorithm names."""
from ..scen import *

ASSUMPTIONS = ['a full covariance given as starting solution is not used by the VD variants (they have no full covariance)']
SOL = 'libcmaes::CMASolutions'
# documented names -> strategy, update, flag
SPEC = {}
NPOS = 18446744073709551615
for pre, upd, flag in (('', 'CovarianceUpdate', None), ('a', 'ACovarianceUpdate', None), ('sep', 'CovarianceUpdate', 'sep'),
                       ('sepa', 'ACovarianceUpdate', 'sep')):
    SPEC[pre + 'cmaes'] = ('CMAStrategy', upd, flag)
    SPEC[pre + 'ipop'] = ('IPOPCMAStrategy', upd, flag)
    SPEC[pre + 'bipop'] = ('BIPOPCMAStrategy', upd, flag)
SPEC['vdcma'] = ('CMAStrategy', 'VDCMAUpdate', 'vd')
SPEC['vdipopcma'] = ('IPOPCMAStrategy', 'VDCMAUpdate', 'vd')
SPEC['vdbipopcma'] = ('BIPOPCMAStrategy', 'VDCMAUpdate', 'vd')


class R(Rule):
    def __init__(self, consts, given):
        self.consts = consts
        self.given = given
        self.hits = []

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def initial(self, I, loc):
        if loc.path and loc.path[-1][0] == '.':
            c = self.consts.get(loc.path[-1][1].split('::')[-1])
            if c is not None and any(p == ('.', loc.path[-1][1]) for p in loc.path):
                return c
        return None

    def on_call(self, I, st, fr, n, f, o, args):
        if f['name'] == 'optimize' and o is not None and bare(f.get('cls') or '') != 'libcmaes::ESOptimizer' and any(
                bare(b) == ESO for b in I.P.bases(f.get('cls') or '')):
            m = T('fresh', 'the run', len(self.hits))
            self.hits.append((o, I.dyncls.get(o.root), st.copy(), I.where(fr, n), I.stack(fr), m, args, f))
            sol = field_named(I.P, f['cls'], '_solutions')
            I.rawwrite(st, Loc(o.root, o.path + (sol,)), m)
            return [(T('fresh', 'status', len(self.hits)), st)]
        return None


def algos(P):
    """name -> code, from the initialiser of the table"""
    for key, v in sorted(P.vars.items()):
        if key.split('#')[0].split('::')[-1] == '_algos':
            out = {}
            for x in walk(v.get('init')):
                ar = x.get('args') or x.get('e') or x.get('a')
                if x.get('k') not in ('InitList', 'Ctor') or not isinstance(ar, list):
                    continue
                ys = [y for z in ar for y in walk(z)]
                strs = [y for y in ys if y.get('k') == 'Str']
                nums = [y for y in ys if y.get('k') in ('Lit', 'Enum')]
                if len(strs) == 1 and nums:
                    out.setdefault(strs[0].get('v'), nums[-1].get('v'))
            if out:
                return out
    return {}


def parts(P, cls):
    bs = P.bases(cls) if cls in P.records else [cls]
    names = [leaf(b) for b in bs]
    st = next((x for x in ('BIPOPCMAStrategy', 'IPOPCMAStrategy', 'CMAStrategy') if x in names), None)
    c = next((b for b in bs if leaf(b) == st), cls)
    upd = next((u for u in ('ACovarianceUpdate', 'VDCMAUpdate', 'CovarianceUpdate') if '::' + u in c or '<' + u in c), None)
    surr = any('Surrogate' in x for x in names)
    return st, upd, surr


def check(ctx):
    P = ctx.P
    tab = algos(P)
    ctx.require(tab, 'table of algorithm names')
    covp = getter_path(P, SOL, 'xmean')
    miss = [n for n in SPEC if n not in tab]
    for n in SPEC:
        if n in tab:
            dup = [m for m in tab if m != n and tab[m] == tab[n]]
            if dup:
                ctx.viol('name/' + n, 'include/libcmaes/cmaparameters.h', 'names %s and %s select the same algorithm' % (n, dup[0]))
            else:
                ctx.ok('name/' + n, 'include/libcmaes/cmaparameters.h', 'code %s' % tab[n])
        else:
            ctx.viol('name/' + n, 'include/libcmaes/cmaparameters.h', 'documented algorithm name %s is not in the table' % n)
    ents = [f for f in P.funcs.values() if f['bare'] in ('libcmaes::cmaes', 'libcmaes::surrcmaes') and 'body' in f]
    ctx.require(ents, 'cmaes()')
    for f in ents:
        gp = gpname(f)
        if ctx.tier == 'quick' and gp not in ('', 'pwq'):
            continue
        surr = f['name'] == 'surrcmaes'
        for name, (lf, upd, flag) in SPEC.items():
            if name not in tab:
                continue
            for given in ((None,) if surr else (False, True)):
                if given and flag == 'vd':
                    continue
                for already in ((0, 1) if flag else (0,)):
                    one(ctx, f, gp, name, tab[name], lf, upd, flag, given, already, surr, covp)
    setter(ctx, tab)


def gpname(f):
    t = ' '.join(p.get('t', '') for p in f['params'])
    return ('pwq' if 'pwqBound' in t else '') + (',lin' if 'linScaling' in t else '')


def one(ctx, f, gp, name, code, lf, upd, flag, given, already, surr, covp):
    P = ctx.P
    key = '%s[%s]/%s%s%s' % (f['name'], gp, name, '/given' if given else '', '/already' if already else '')
    where0 = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
    consts = {'_algo': k(int(code)), '_maximize': ZERO, '_full_fplot': ZERO,
              '_sep': k(1 if flag == 'sep' and already else 0), '_vd': k(1 if flag == 'vd' and already else 0)}
    r = R(consts, given)
    I = Interp(P, r)
    I.budget = 600000
    st = St()
    ps = f['params']
    locs = {}
    for i, p in enumerate(ps):
        locs[p.get('n') or str(i)] = Loc(('parm', p.get('n') or str(i), i))
    # which argument is which: by type
    def arg(*subs):
        for i, p in enumerate(ps):
            if all(s in p.get('t', '') for s in subs):
                return Loc(('parm', (f['body'].get('params') or ps)[i].get('n') or str(i), i))
        return None
    func = Loc(('parm', (f['body'].get('params') or ps)[0].get('n') or '0', 0))
    par = Loc(('parm', (f['body'].get('params') or ps)[1].get('n') or '1', 1))
    gi = next((i for i, p in enumerate(ps) if 'CMASolutions' in p.get('t', '') and 'function' not in p.get('t', '')), None)
    if given is not None and gi is not None:
        # do the given solutions carry a covariance?
        c = T('init', Loc(('parm', (f['body'].get('params') or ps)[gi].get('n') or str(gi), gi), getter_path(P, SOL, 'cov')))
        for q in ('size', 'rows', 'cols'):
            I.assume(st, eq(T('call', q, c), ZERO), not given)
            I.assume(st, lt(ZERO, T('call', q, c)), bool(given))
    try:
        res = I.run(f, st=st)
    except Giveup as e:
        ctx.unk(key, where0, str(e))
        return
    ctx.saw(I, f['bare'])
    if len(r.hits) == 0:
        if I.imprecise:
            ctx.unk(key, where0, 'no run found')
        else:
            ctx.viol(key + '/run', where0, 'no optimisation is run for algorithm %s' % name)
        return
    fb = f['body'].get('params') or ps
    for o, cls, s, where, stack, m, args, of in r.hits:
        if infeasible2(I, s):
            continue
        if cls is None:
            ctx.unk(key, where, 'class of the optimizer')
            continue
        a, b, c = parts(P, cls)
        if (a, b, c) != (lf, upd, surr):
            ctx.viol(key + '/strategy', where, 'algorithm %s runs %s with %s%s instead of %s with %s' % (
                name, a, b, ' (surrogate)' if c else '', lf, upd), [cls])
        else:
            ctx.ok(key + '/strategy', where, '%s/%s' % (a, b))
        pp = field_named(P, cls, '_parameters')
        for fl in ('sep', 'vd'):
            want = 1 if fl == flag else 0
            v = I.read_plain(s, flagloc(P, o, pp, fl))
            if isk(v):
                if bool(kval(v)) == bool(want):
                    ctx.ok(key + '/' + fl, where, '%s flag %d' % (fl, want))
                else:
                    ctx.viol(key + '/' + fl, where, 'algorithm %s runs with the %s flag %s' % (name, fl, 'set' if kval(v) else 'not set'))
            else:
                ctx.unk(key + '/' + fl, where, show(v, 4))
        if flag and already:
            c1 = Loc(par.root, (('.', cfield(P, cls, pp, '_c1')),))
            v = I.read_plain(s, Loc(o.root, o.path + (pp,) + c1.path))
            if v is T('init', c1):
                ctx.ok(key + '/rates', where, 'learning rates taken as they are')
            elif v.op in ('fresh', 'loop', 'uninit', 'call'):
                ctx.unk(key + '/rates', where, show(v, 4))
            else:
                ctx.viol(key + '/rates', where, 'learning rate adapted to %s a second time: %s' % (flag, show(v, 3)[:120]))
        ex = [('_func', 0, 'objective')]
        for i, p in enumerate(fb):
            t = ps[i].get('t', '')
            if i < 2:
                continue
            if 'double *' in t or 'GradFunc' in t:
                ex.append(('_gfunc', i, 'gradient function'))
            elif 'ofstream' in t or 'PlotFunc' in t:
                ex.append(('_pffunc', i, 'plot function'))
            elif 'function' in t or 'ProgressFunc' in t:
                ex.append(('_pfunc', i, 'progress function'))
        for fn, i, what in ex:
            fl = field_named(P, cls, fn)
            if fl is None:
                continue
            v = I.read_plain(s, Loc(o.root, o.path + (fl,)))
            w = T('init', Loc(('parm', fb[i].get('n') or str(i), i)))
            kk = key + '/' + fn[1:]
            if v is w or mayskip(v, w, I, s):
                ctx.ok(kk, where, what + ' installed')
            elif v.op in ('init', 'fn', 'lam', 'null', 'k', 'uninit', 'bind', 'call') and w not in subterms(v):
                ctx.viol(kk, where, 'algorithm %s runs without the caller\'s %s (installed: %s)' % (name, what, show(v, 3)[:100]))
            else:
                ctx.unk(kk, where, show(v, 4))
        if given is not None and covp:
            sol = field_named(P, cls, '_solutions')
            v = I.read_plain(s, Loc(o.root, o.path + (sol,) + covp))
            if gi is not None:
                w = T('init', Loc(('parm', fb[gi].get('n') or str(gi), gi), covp))
                kk = key + '/start'
                if given:
                    if v is w:
                        ctx.ok(kk, where, 'starts from the given mean')
                    elif w not in subterms(v) and not any(x.op in ('fresh', 'loop') for x in subterms(v) if isinstance(x, T)):
                        ctx.viol(kk, where, 'the given solutions are not used as starting point (mean %s)' % show(v, 3)[:100])
                    else:
                        ctx.unk(kk, where, show(v, 4))
                else:
                    if w in subterms(v):
                        ctx.viol(kk, where, 'starts from solutions that carry no covariance')
                    else:
                        ctx.ok(kk, where, 'fresh start')
    ms = [h[5] for h in r.hits]
    for v, s, fr in res:
        vv = I.read(s, v) if isinstance(v, Loc) else v
        kk = key + '/result'
        c = I.proj(vv, covp) if covp else vv
        st_ = subterms(c)
        if any(m in st_ for m in ms):
            ctx.ok(kk, where0, 'returns the solutions of the run')
        elif any(isinstance(x, T) and x.op in ('fresh', 'loop') for x in st_):
            ctx.unk(kk, where0, show(c, 4))
        else:
            ctx.viol(kk, where0, 'the result returned is not that of the run: %s' % show(c, 3)[:100])


def mayskip(v, w, I, s):
    """gated by 'is the argument null'"""
    if v.op == 'phi' and v.args[0][0] == 'gate':
        g = v.args[0][1]
        if w in subterms(g) and any(x is w for x in v.args[1:]):
            a, b = v.args[1], v.args[2]
            neg_ = g.op == 'op' and g.args[0] == '!'
            core = g.args[1] if neg_ else g
            null_when = core.op == 'op' and core.args[0] == '=='     # w == null
            on = (b if null_when else a) if not neg_ else (a if null_when else b)
            return on is w
    return False


def infeasible2(I, s):
    return False


def flagloc(P, o, pp, fl):
    from ..scen import loc_of
    return Loc(o.root, o.path + (pp, ('.', cfield(P, None, pp, '_' + fl))))


_cf = {}


def cfield(P, cls, pp, name):
    if name not in _cf:
        for c in P.records:
            if bare(c) == 'libcmaes::CMAParameters':
                f = field_named(P, c, name)
                if f:
                    _cf[name] = f[1]
                    break
    return _cf[name]


def setter(ctx, tab):
    """set_str_algo(name): code from the table, sep/vd flags by name"""
    P = ctx.P
    for f in P.funcs.values():
        if f['name'] != 'set_str_algo' or 'body' not in f or not (f.get('clsb') or '').endswith('CMAParameters'):
            continue
        if 'pwqBound' in f.get('cls', '') or 'linScaling' in f.get('cls', ''):
            if ctx.tier == 'quick':
                continue
        for name, (lf, upd, flag) in SPEC.items():
            if name not in tab:
                continue
            r = RS(name, int(tab[name]))
            I = Interp(P, r)
            this = Loc(('this', 'p'))
            key = 'set_str_algo/%s/%s' % (gpname({'params': [{'t': f.get('cls', '')}]}), name)
            try:
                res = I.run(f, this=this, dyn=f.get('cls'), args={0: T('str', name)})
            except Giveup as e:
                ctx.unk(key, f['bare'], str(e))
                continue
            ctx.saw(I, f['bare'])
            where = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
            for v, s, fr in res:
                a = I.read_plain(s, this.fld(field_named(P, f['cls'], '_algo')[1]))
                if isk(a):
                    if kval(a) == int(tab[name]):
                        ctx.ok(key + '/code', where, str(kval(a)))
                    else:
                        ctx.viol(key + '/code', where, 'name %s selects code %s, the table says %s' % (name, kval(a), tab[name]))
                else:
                    ctx.unk(key + '/code', where, show(a, 4))
                for fl in ('sep', 'vd'):
                    x = I.read_plain(s, this.fld(cfield(P, None, None, '_' + fl)))
                    if isk(x):
                        if bool(kval(x)) == (fl == flag):
                            ctx.ok(key + '/' + fl, where, str(kval(x)))
                        else:
                            ctx.viol(key + '/' + fl, where, 'after selecting %s the %s flag is %s' % (name, fl, kval(x)))
                    else:
                        ctx.unk(key + '/' + fl, where, show(x, 4))


class RS(Rule):
    def __init__(self, name, code):
        self.name, self.code = name, code

    def initial(self, I, loc):
        if loc.path and loc.path[-1][0] == '.' and loc.path[-1][1].split('::')[-1] in ('_sep', '_vd'):
            return ZERO
        if loc.root == ('heap', 'entry') and loc.path and str(loc.path[-1][1]).split('::')[-1] == 'second':
            return k(self.code)
        if loc.root[0] == 'glob' and loc.root[1].split('::')[-1] == 'npos':
            return k(NPOS)
        return None

    def on_ext(self, I, st, fr, n, name, f, oloc, args):
        nm = f['name']
        if oloc is not None and oloc.root[0] == 'glob' and oloc.root[1].split('::')[-1] == '_algos':
            if nm in ('find', 'at', 'operator[]', 'count') and args and I.aval(st, args[0]) is T('str', self.name):
                if nm in ('at', 'operator[]'):
                    return [(k(self.code), st)]
                if nm == 'count':
                    return [(ONE, st)]
                p = Loc(('heap', 'entry'))
                return [(T('addr', p), st)]
            if nm in ('end', 'cend'):
                return [(T('null'), st)]
        if nm == 'find' and args and oloc is not None:
            a, b = I.read(st, oloc), I.aval(st, args[0])
            if a.op == 'str' and b.op == 'str':
                i = a.args[0].find(b.args[0])
                return [(k(i if i >= 0 else NPOS), st)]
        return None
