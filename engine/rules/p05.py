"""Seeded runs are reproducible: results of entropy sources (clocks, random
devices, the C generator, process or thread identity) are tracked as tainted
values through constructors, operations and whole runs; they may end up only in
the reported elapsed times.  No branch may depend on one, and no mutable global
may be read before the run itself has (re)initialised it, so the history of the
process has no influence either."""
from ..scen import *

ASSUMPTIONS = ['the objective and the user callbacks are deterministic',
               'floating point results of the parallel loops do not depend on the schedule (disjoint writes, see the race property)']
ENTROPY = {'time', 'clock', 'now', 'rand', 'random', 'rand_r', 'drand48', 'lrand48', 'getpid', 'get_id', 'gettimeofday', 'clock_gettime',
           'omp_get_thread_num', 'omp_get_wtime', 'random_shuffle', 'hardware_concurrency', 'getenv', 'pthread_self', 'gethostid'}


def entropic(t):
    for x in subterms(t):
        if isinstance(x, T) and x.op == 'entropy':
            return x
    return None


def timing(loc):
    return any(c[0] == '.' and 'elapsed' in c[1].split('::')[-1] for c in loc.path)


class R(Rule):
    def __init__(self, mutable):
        self.hits = []
        self.sources = set()
        self.mutable = mutable
        self.greads = []

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def src(self, I, fr, n, name):
        self.sources.add((name, I.where(fr, n)))
        return T('entropy', name, fr.id, n['#'])

    def on_ext(self, I, st, fr, n, name, f, oloc, args):
        nm, b = f['name'], f['bare']
        if 'random_device' in b and nm == 'operator()':
            return [(self.src(I, fr, n, 'std::random_device'), st)]
        if nm in ENTROPY and not (f.get('cls') and not f.get('static') and 'chrono' not in b and 'thread' not in b):
            return [(self.src(I, fr, n, nm), st)]
        if nm in ('Random', 'setRandom') and 'Eigen' in b:
            t = self.src(I, fr, n, 'Eigen::Random (rand)')
            if oloc is not None and nm == 'setRandom':
                I.write(st, fr, n, oloc, t)
                return [(oloc, st)]
            return [(t, st)]
        return None

    def on_branch(self, I, st, fr, n, cond):
        e = entropic(cond)
        if e is not None and not I.silent:
            self.hits.append((I.where(fr, n), 'a branch depends on %s' % e.args[0], I.stack(fr)))

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        if is_objective(n, I.P) and args and not I.silent:
            v = I.aval(st, args[0])
            if v.op == 'addr':
                v = I.read(st, v.args[0])
            e = entropic(v)
            if e is not None:
                self.hits.append((I.where(fr, n), 'a point given to the objective depends on %s' % e.args[0], I.stack(fr)))
        return None


def mutable_globals(P):
    """globals of the library that some library function modifies"""
    out = set()
    for f in P.funcs.values():
        if 'body' not in f:
            continue
        for x in walk(f['body']):
            if x.get('k') == 'Ref' and 'g' in x:
                out.add(x.get('gq') or x['g'])
    res = set()
    for g in out:
        v = P.vars.get(g)
        if v is not None and not v.get('const') and not g.startswith('std::'):
            t = v.get('t', '')
            res.add(g)
        elif v is None and '@' in g and 'const' not in g:
            res.add(g)
    return res


def check(ctx):
    P = ctx.P
    written = {}
    combos = [('', 'CovarianceUpdate'), ('pwq', 'VDCMAUpdate')]
    if ctx.tier == 'thorough':
        combos += [('', 'ACovarianceUpdate'), ('pwq', 'CovarianceUpdate'), ('lin', 'CovarianceUpdate')]
    for gp, upd in combos:
        for lf, base in (('CMAStrategy', None), ('IPOPCMAStrategy', None), ('BIPOPCMAStrategy', None), ('ACMSurrogateStrategy', 'CMAStrategy'), ('SimpleSurrogateStrategy', 'CMAStrategy')):
            cls = sclass(P, lf, base, upd, gp)
            if cls is None:
                continue
            for np in (2, 3):
                run(ctx, cls, lf, np)
    # construction of parameters with a seed
    for f in P.funcs.values():
        if 'body' in f and ((f.get('ctor') and (f.get('clsb') or '') == 'libcmaes::CMAParameters' and not f.get('copyctor') and not f.get('movector')) or f['bare'] == 'libcmaes::Parameters::set_seed'):
            seedp = [i for i, p in enumerate(f['params']) if 'seed' in (p.get('n') or '')]
            if not seedp:
                continue
            r = R(None)
            I = Interp(P, r)
            this = Loc(('this', 'p'))
            st = St()
            I.assume(st, eq(T('init', Loc(('parm', f['params'][seedp[0]]['n'], seedp[0]))), ZERO), False)
            key = '%s/%d' % (f['bare'], len(f['params']))
            try:
                res = I.run(f, this=this, dyn=f.get('cls'), st=st)
            except Giveup as e:
                ctx.unk(key, key, str(e))
                continue
            ctx.saw(I, f['bare'])
            leaks(ctx, key, f, I, res, this, r)


def leaks(ctx, key, f, I, res, this, r):
    bad = False
    where = '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))
    for w, what, stack in r.hits:
        bad = True
        ctx.viol(key + '/use', w, what, ['call path: %s' % (stack,), 'sources: %s' % sorted(r.sources)])
    for v, s, fr in res:
        for l, x in s.env.items():
            if l.root != this.root and l.root[0] != 'glob':
                continue
            e = tainted_at(l, x)
            if e is not None:
                bad = True
                src = [w for nm, w in r.sources if nm == e[1].args[0]]
                ctx.viol('%s/%s' % (key, showloc(e[0], 3)), src[0] if src else where, '%s depends on %s' % (showloc(e[0], 4), e[1].args[0]),
                         ['entry: %s' % f['bare'], 'sources: %s' % sorted(r.sources)])
    if not bad:
        ctx.ok(key, where, 'state does not depend on entropy (sources seen: %s)' % (', '.join(sorted({n for n, w in r.sources})) or 'none'))


def tainted_at(l, x):
    """first tainted, non-timing component"""
    if timing(l):
        return None
    if x.op == 'rec':
        for p, y in x.args[1]:
            r = tainted_at(Loc(l.root, l.path + p), y)
            if r:
                return r
        return tainted_at(l, x.args[0])
    # follow whole-object copies component-wise
    e = entropic_nontiming(x)
    return (l, e) if e is not None else None


def entropic_nontiming(x, seen=None):
    """entropy inside x other than in an elapsed-time component of a record"""
    seen = seen if seen is not None else set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'entropy':
                return y
            if y.op == 'rec':
                st.append(y.args[0])
                for p, z in y.args[1]:
                    if not any(c[0] == '.' and 'elapsed' in c[1].split('::')[-1] for c in p):
                        st.append(z)
                continue
            st.extend(a for a in y.args)
        elif isinstance(y, tuple):
            st.extend(y)
        elif isinstance(y, Loc):
            st.append(y.path)
    return None


def opaque_state(v):
    return any(isinstance(x, T) and x.op in ('fresh', 'loop') for x in subterms(v))


def run(ctx, cls, lf, np):
    P = ctx.P
    gp_ = getter_path(P, [c for c in P.records if bare(c) == 'libcmaes::CMAParameters'][0], 'get_seed')
    seed = gp_[-1][1].split('::')[-1] if gp_ else '_seed'
    r = R(None)
    I = Interp(P, r)
    I.budget = 1500000
    this = Loc(('obj', lf))
    opt = method(P, cls, 'optimize', 0)
    if opt is None:
        return
    key = 'run/%s/%d' % (cls, np)
    cls_, where = cls, '%s:%s' % (model.short(opt['body']['file']), opt['body'].get('line', '?'))
    first = {}

    def initial(v, root, busy=()):
        for x in subterms(v):
            if isinstance(x, T) and x.op == 'init' and x.args[0].root == root:
                return True
            if isinstance(x, T) and x.op == 'loop' and x not in busy and x in I.loopinfo and initial(I.loopinfo[x][0], root, busy + (x,)):
                return True
        return False

    def rlog(st, loc):
        if loc.root[0] == 'glob' and not str(loc.root[1]).startswith('std::'):
            l = loc
            v = I.read_plain(st, Loc(l.root))
            if initial(v, l.root):
                first.setdefault(l.root[1], True)
    I.rlog = rlog
    wr = set()

    def on_write(I_, st, fr, n, loc, val):
        if loc.root[0] == 'glob':
            wr.add(loc.root[1])
    r.on_write = on_write
    try:
        b = build(I, cls, np, this=this)
        if not b:
            return
        restart = lf in ('IPOPCMAStrategy', 'BIPOPCMAStrategy')
        if restart:
            op0 = r.opaque
            r.opaque = lambda g: op0(g) or ((g.get('clsb') or '').endswith('::CMAStrategy') and g['name'] == 'optimize' and len(g['params']) == 3)
        for st, th in b:
            # generators shared through globals follow the user's seed
            for l, v in st.env.items():
                if l.root[0] == 'glob' and any(isinstance(x, T) and x.op == 'call' and x.args[0] == 'seeded' for x in subterms(v)):
                    if any(isinstance(x, T) and x.op == 'init' and x.args[0].path and x.args[0].path[-1][0] == '.' and x.args[0].path[-1][1].split('::')[-1] == seed for x in subterms(v)):
                        ctx.ok(key + '/seeded', cls, 'the sampling generator starts from the user\'s seed')
                    elif not opaque_state(v):
                        ctx.viol(key + '/seeded', where, 'after construction the sampling generator is %s: it does not follow the seed' % show(v, 4))
            fl = field_named(P, cls, '_func')
            if fl:
                I.rawwrite(st, loc_of(this, fl), T('init', Loc(('parm', 'func', 0))))
            res = I.run(opt, this=this, dyn=cls, st=st)
            leaks(ctx, key, opt, I, res, this, r)
    except Giveup as e:
        ctx.unk(key, cls, str(e))
    ctx.saw(I, '%s::optimize' % lf)
    hist = sorted(g for g in first if g in wr)
    for g in hist:
        ctx.viol('%s/global/%s' % (key, g), where, 'the run reads the mutable global %s before initialising it: the result depends on earlier runs of the process' % g)
    if not hist:
        ctx.ok(key + '/globals', cls, 'mutable globals used (%s) are initialised by the run first' % (', '.join(sorted(map(str, wr))) or 'none'))
