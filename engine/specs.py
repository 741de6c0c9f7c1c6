"""Comparison of the library's value terms with those of the specification
functions in spec/*.cc, analysed by the same dataflow analysis."""
from . import model
from .scen import *
from .randint import equal, opaque_parts


def spec_funcs(P, unit):
    """{name: function} of the specification unit"""
    return {f['bare'].split('::')[-1]: f for f in P.funcs.values()
            if f.get('unit') == 'spec_' + unit and 'body' in f and '/spec/' in f['body']['file'] and f['bare'].startswith('spec::')}


def spec_list(P, unit):
    """every function of the specification unit, overloads included"""
    return [f for f in P.funcs.values()
            if f.get('unit') == 'spec_' + unit and 'body' in f and '/spec/' in f['body']['file'] and f['bare'].startswith('spec::')]


def call_value(I, f, args, st=None):
    """[(value, state, frame)] of a free function applied to locations"""
    return I.run(f, st=st, args=dict(enumerate(args)))


class SpecRule(Rule):
    """the genotype/phenotype transform is an uninterpreted function, decided by a
    property of its own; executions in which no exception is thrown"""
    nothrow = True

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')


def where_of(f):
    return '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?'))


def judge_equal(ctx, key, where, got, want, what, okcall=None):
    r = equal(got, want, okcall)
    if r == 'yes':
        ctx.ok(key, where, '%s as specified' % what)
    elif r == 'no':
        ctx.viol(key, where, '%s is %s, specified %s' % (what, show(got, 6)[:220], show(want, 6)[:220]))
    else:
        ctx.unk(key, where, 'cannot compare %s with %s' % (show(got, 5)[:120], show(want, 5)[:120]))
    return r


def compare_state(ctx, P, kk, f, I, s, I2, s2, obj, cls, fields, okcall=None, skip=()):
    """every member of obj after the function equals the specified one"""
    for n in fields:
        if n in skip:
            continue
        fld = field_named(P, cls, n)
        l = loc_of(obj, fld)
        a, b = I.read_plain(s, l), I2.read_plain(s2, l)
        sub = subfields(P, cls, n)
        if a is not b and sub and obj.root == l.root and len(l.path) < 3 and (a.op == 'rec' or b.op == 'rec'):
            compare_state(ctx, P, kk + '/' + n, f, I, s, I2, s2, l, sub, [x['sn'] for x in P.all_fields(sub)], okcall, skip)
            continue
        if a is b:
            ctx.ok('%s/%s' % (kk, n), where_of(f), 'as specified' if a is not T('init', l) else 'left alone, as specified')
            continue
        if f.get('ctor') and not [x for x in subterms(b) if isinstance(x, T) and x.op == 'uninit'] and (a.op == 'uninit' or a.op == 'sel' and a.args[0].op == 'uninit'):
            ctx.viol('%s/%s' % (kk, n), where_of(f), '%s is left uninitialised' % n)
            continue
        judge_equal(ctx, '%s/%s' % (kk, n), where_of(f), a, b, 'the new value of %s' % n, okcall)


def subfields(P, cls, n):
    """class of the data member when it is a library class of its own"""
    for x in P.all_fields(cls):
        if x['sn'] == n and x['t'] in P.records and P.all_fields(x['t']) and (x['t'].startswith('libcmaes::') or 'EigenMultivariateNormal' in x['t']):
            return x['t']
    return None


def ptypes(f, k=0):
    return tuple(alias(p['t'].replace('libcmaes::', '')) for p in f['params'][k:])


def alias(t):
    for a, b in (('std::function<void (const Eigen::Matrix<double, -1, -1> &, const Eigen::Matrix<double, -1, -1> &)>', 'EvalFunc'),
                 ('std::function<Eigen::Matrix<double, -1, -1> ()>', 'AskFunc'), ('std::function<void ()>', 'TellFunc'),
                 ('std::function<double (const double *, const int &)>', 'FitFunc'),
                 ('Eigen::Matrix<double, -1, 1>', 'dVec'), ('Eigen::Matrix<double, -1, -1>', 'dMat')):
        t = t.replace(a, b)
    return t


def names(f):
    return [p['n'] for p in f['params']]


def result(I, r):
    v, s, fr = r
    return I.read_plain(s, v) if isinstance(v, Loc) else v


def compare_class(ctx, unit, cls, okcall=None, only=None, skip=(), classes=None, rule=None, keep=None):
    """every method of cls that the specification unit describes (a function of
    the same name whose first parameter is the object): members of the object
    after it and value returned"""
    P = ctx.P
    specs = [f for f in spec_list(P, unit) if only is None or (only(f['name']) if callable(only) else f['name'] in only)]
    classes = classes or sorted(c for c in P.records if bare(c) == cls)
    ctx.require(classes, cls)
    if not specs:
        ctx.unk('spec', 'spec/%s.cc' % unit, 'the specification does not fit the code: %s' % P.nospec.get(unit, '')[:200])
        return
    items = []
    for c in classes:
        own = {sp['name'] for sp in specs if objtype(sp) == c}
        for sp in sorted(specs, key=lambda f: f['id']):
            if bare(objtype(sp)) == cls and (objtype(sp) == c or sp['name'] not in own):
                for f in find(P, c, sp):
                    items.append((c, cls, sp, f, okcall, skip, rule, keep))
    ctx.require(items, 'methods of ' + cls)
    ctx.pmap(one_method, items)


def objtype(sp):
    """type of the object a specification function describes"""
    return sp['params'][0]['t'].replace('const ', '', 1).rstrip('& ') if sp['params'] else ''


def find(P, c, sp):
    """methods of class c (or else of its bases) that the specification describes"""
    n = len(sp['params']) - 1
    want = ptypes(sp, 1)
    for b in P.bases(c):
        out = []
        for f in sorted((f for f in P.funcs.values() if f.get('cls') == b), key=lambda f: f['id']):
            if 'body' in f and f['name'] == sp['name'].rstrip('_') and len(f['params']) == n and (
                    ptypes(f) == want or any('GenoPheno' in t for t in ptypes(f)) and [bare(t) for t in ptypes(f)] == [bare(t) for t in want]):
                out.append(f)
        if out:
            return out
    return []


def one_method(ctx, c, cls, sp, f, okcall, skip, rule, keep):
    P = ctx.P
    gp = c[len(cls):].replace('libcmaes::', '')
    kk = '%s::%s(%s)%s' % (cls.split('::')[-1], f['name'], ', '.join(ptypes(f)), '' if gp in ('<>', '') else ' ' + gp)
    obj = Loc(('parm', 'p', 0))
    args = [Loc(('parm', 'a%d' % i, 0)) for i in range(len(f['params']))]
    from . import matint, randint
    randint._EQ.clear()
    matint.PARMS.clear()
    matint.MI.columns = getattr(rule, 'columns', ())
    matint.PARMS.update({a.root: p['t'].replace('const ', '').rstrip('& ') for a, p in zip(args, f['params'])})
    I, I2 = Interp(P, (rule or SpecRule)()), Interp(P, (rule or SpecRule)())
    I.budget = I2.budget = 300000
    ctor = f.get('ctor')
    try:
        st = None
        if ctor and 'seed' in names(f):
            # an explicit seed
            st = St()
            I.assume(st, eq(T('init', args[names(f).index('seed')]), k(0)), False)
        got = I.run(f, this=obj, dyn=c, args=dict(enumerate(args)), st=st, **({'leave': True} if ctor else {}))
        want = call_value(I2, sp, [obj] + args)
    except Giveup as e:
        ctx.unk(kk, where_of(f), str(e))
        return
    ctx.saw(I, f['bare'])
    if len(got) != 1 or len(want) != 1:
        ctx.unk(kk, where_of(f), '%d results' % len(got))
        return
    fields = [x['sn'] for x in P.all_fields(c)]
    if ctor:
        # members the specification leaves open are not compared
        un = lambda n: T('init', loc_of(obj, field_named(P, c, n)))
        fields = [n for n in fields if I2.read_plain(want[0][1], loc_of(obj, field_named(P, c, n))) is not un(n)]
        if st is not None:
            a, b = I.read_plain(got[0][1], loc_of(obj, field_named(P, c, '_seed'))), T('init', args[names(f).index('seed')])
            judge_equal(ctx, kk + '/seed', where_of(f), a, b, 'an explicit seed')
    if keep:
        fields = [n for n in fields if keep(f['name'], n)]
    compare_state(ctx, P, kk, f, I, got[0][1], I2, want[0][1], obj, c, fields, okcall, skip)
    for i, p in enumerate(f['params']):
        if p['k'] == 'ref' and not ctor:
            a, b = I.read_plain(got[0][1], args[i]), I2.read_plain(want[0][1], args[i])
            if a is b:
                ctx.ok('%s/argument %s' % (kk, p['n']), where_of(f), 'as specified')
            else:
                judge_equal(ctx, '%s/argument %s' % (kk, p['n']), where_of(f), a, b, 'the value left in ' + p['n'], okcall)
    if sp['ret'] != 'void':
        a, b = result(I, got[0]), result(I2, want[0])
        if a is b:
            ctx.ok(kk + '/value', where_of(f), 'returns what is specified')
        else:
            judge_equal(ctx, kk + '/value', where_of(f), a, b, 'the value returned by ' + f['name'], okcall)
