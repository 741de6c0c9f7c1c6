"""Entry scenarios: discovery of the public classes and construction of objects."""
from .absint import *
from .terms import *
from .model import AnalysisBroken

ESO = 'libcmaes::ESOStrategy'
OBJ_SIGS = ('std::function<double (const double *, const int &)>',)


def bare(cls):
    """template arguments stripped"""
    out, d = [], 0
    for c in cls:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


def strategies(P):
    """concrete strategy classes: records deriving from the base strategy"""
    out = []
    for c in P.records:
        bs = P.bases(c)
        if any(bare(b) == ESO for b in bs[1:]):
            out.append(c)
    if not out:
        raise AnalysisBroken('no class derives from ' + ESO)
    return sorted(out)


def leaf(cls):
    return bare(cls).split('::')[-1]


def ctors(P, cls, n=None):
    r = P.records[cls]
    out = []
    for m in r['methods']:
        f = P.funcs.get(m['id'])
        if f and f.get('ctor') and 'body' in f and not f.get('copyctor') and not f.get('movector'):
            if n is None or len(f['params']) == n:
                out.append(f)
    return out


def method(P, cls, name, nparams=None, body=True):
    """the most derived method called name of cls"""
    for c in P.bases(cls):
        r = P.records.get(c)
        if not r:
            continue
        for m in r['methods']:
            f = P.funcs.get(m['id'])
            if f and f['name'] == name and (nparams is None or len(f['params']) == nparams) and (not body or 'body' in f):
                return f
    return None


def is_objective(n, P):
    """does call node n call a user objective function?"""
    f = P.funcs.get(n.get('f'))
    return bool(f and f['name'] == 'operator()' and f['bare'].startswith('std::function') and f.get('cls') in OBJ_SIGS)


def build(I, cls, nparams=2, facts=None, this=None):
    """construct an object; -> [(st, this)] """
    cs = ctors(I.P, cls, nparams)
    if not cs:
        return None
    f = cs[0]
    this = this or Loc(('obj', leaf(cls)))
    st = St()
    if facts:
        for t, v in facts:
            I.assume(st, t, v)
    r = I.run(f, this=this, dyn=cls, st=st, leave=True)
    return [(s, this) for v, s, fr in r]


def sclass(P, leafname, base=None, upd='CovarianceUpdate', gp=''):
    """instantiation of a strategy template: base strategy, update type and
    genotype/phenotype (comma separated tail names, '' for the default)"""
    for c in strategies(P):
        bs = [leaf(b) for b in P.bases(c)]
        if bs[0] != leafname:
            continue
        if base and (base not in bs or (base == 'CMAStrategy' and 'IPOPCMAStrategy' in bs)):
            continue
        if '::' + upd not in c:
            continue
        has_pwq, has_lin = 'pwqBoundStrategy' in c, 'linScalingStrategy' in c
        if has_pwq != ('pwq' in gp) or has_lin != ('lin' in gp):
            continue
        return c
    return None


def getter_path(P, cls, name):
    """field path returned by a getter of cls: tuple of components or None"""
    f = method(P, cls, name, 0)
    if f is None:
        return None
    I = Interp(P)
    this = Loc(('g',))
    try:
        r = I.run(f, this=this, dyn=cls)
    except Giveup:
        return None
    if len(r) != 1:
        return None
    v = r[0][0]
    if isinstance(v, Loc) and v.root == ('g',):
        return v.path
    if isinstance(v, T) and v.op == 'init' and v.args[0].root == ('g',):
        return v.args[0].path
    return None


def field_named(P, cls, name):
    """path component of the data member called name (bare suffix), or None"""
    for f in P.all_fields(cls):
        if f['n'].split('::')[-1] == name or f.get('sn') == name:
            return ('.', f['n'])
    return None


def loc_of(this, *comps):
    return Loc(this.root, this.path + tuple(comps))


def walk(n):
    """all nodes of a syntax tree"""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)
