"""Hash-consed value terms: the abstract domain of the value-numbering analysis.

Two expressions get the same term only if they denote the same value on every
execution of the analysed region, so equality of terms is a *must* fact.
Arithmetic is kept as polynomials (associativity, commutativity and
distribution are quotiented out); everything else is an uninterpreted operator.
"""


class T:
    __slots__ = ('op', 'args', 'id', '_h')
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            cls._n += 1
            t.id = cls._n
            t._h = hash(key)
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


class Loc:
    """An access path: a root and a tuple of components.
    components: ('.', field) | ('[]', term) | ('v', name, (terms...))"""
    __slots__ = ('root', 'path', '_h')
    _tab = {}

    def __new__(cls, root, path=()):
        key = (root, path)
        l = cls._tab.get(key)
        if l is None:
            l = object.__new__(cls)
            l.root = root
            l.path = path
            l._h = hash(key)
            cls._tab[key] = l
        return l

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return showloc(self)

    def fld(self, f):
        return Loc(self.root, self.path + (('.', f),))

    def idx(self, t):
        return Loc(self.root, self.path + (('[]', t),))

    def view(self, name, args):
        return Loc(self.root, self.path + (('v', name, tuple(args)),))

    def under(self, o):
        n = len(o.path)
        return self.root == o.root and self.path[:n] == o.path


def k(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
        v = int(v)
    return T('k', v)


ZERO = k(0)
ONE = k(1)


def isk(t):
    return t.op == 'k' and not isinstance(t.args[0], str)


def kval(t):
    return t.args[0]


def _mon(t):
    """polynomial of a term as {mono: coef}"""
    if t.op == 'poly':
        return dict(t.args)
    if isk(t):
        return {(): t.args[0]} if t.args[0] != 0 else {}
    return {(t,): 1}


def _mk(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return k(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return T('poly', *sorted(p.items(), key=lambda mc: [t.id for t in mc[0]]))


def add(a, b):
    p = _mon(a)
    for m, c in _mon(b).items():
        p[m] = p.get(m, 0) + c
    return _mk(p)


def neg(a):
    return _mk({m: -c for m, c in _mon(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = _mon(a), _mon(b)
    if len(pa) * len(pb) > 64:
        x, y = sorted((a, b))
        return T('op', '*', x, y)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2))
            p[m] = p.get(m, 0) + c1 * c2
    # x * inv(x) = 1
    out = {}
    for m, c in p.items():
        l = list(m)
        ch = True
        while ch:
            ch = False
            for t in l:
                if t.op == 'op' and t.args[0] == 'inv' and t.args[1] in l:
                    l.remove(t)
                    l.remove(t.args[1])
                    ch = True
                    break
        # indicators are idempotent
        b = []
        for t in l:
            if is_bool(t) and t in b:
                continue
            b.append(t)
        mm = tuple(sorted(b))
        out[mm] = out.get(mm, 0) + c
    return _mk(out)


def inv(b):
    if isk(b) and kval(b) != 0:
        return k(1.0 / kval(b))
    if b.op == 'op' and b.args[0] == 'inv':
        return b.args[1]
    p = _mon(b)
    if len(p) == 1:
        (m, c), = p.items()
        r = k(1.0 / c)
        for t in m:
            r = mul(r, t.args[1] if t.op == 'op' and t.args[0] == 'inv' else T('op', 'inv', t))
        return r
    return T('op', 'inv', b)


def div(a, b):
    return mul(a, inv(b))


def isnum(t):
    return t.op == 'poly' or isk(t)


NEGC = {'<': '>=', '>': '<=', '>=': '<', '<=': '>', '==': '!=', '!=': '=='}


def _norm(a, b):
    """move additive constants / common parts: compare a with b as (a',b')"""
    d = sub(a, b)
    if isk(d):
        return d, ZERO
    if not (isnum(a) or isnum(b)):
        return a, b
    pa, pb = {}, {}
    p = _mon(d)
    # canonical sign: positives on the left, negatives on the right
    for m, c in p.items():
        if m == ():
            continue
        if c > 0:
            pa[m] = c
        else:
            pb[m] = -c
    c0 = p.get((), 0)
    # constant to the right-hand side when the right is empty, else on the left with sign
    if not pb:
        pb[()] = -c0
    elif not pa:
        pa[()] = c0
    elif c0 > 0:
        pa[()] = c0
    elif c0 < 0:
        pb[()] = -c0
    return _mk(pa), _mk(pb)


def lt(a, b):
    a, b = _norm(a, b)
    if isk(a) and isk(b):
        return k(kval(a) < kval(b))
    if a is b:
        return ZERO
    return T('op', '<', a, b)


def eq(a, b):
    if a is b:
        return ONE
    a, b = _norm(a, b)
    if isk(a) and isk(b):
        return k(kval(a) == kval(b))
    if a.op == 'str' and b.op == 'str':
        return k(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    if isk(a) and not isk(b):
        a, b = b, a
    # boolean compared with a constant
    if isk(b) and is_bool(a):
        if kval(b) == 0:
            return not_(a)
        if kval(b) == 1:
            return a
        return ZERO
    return T('op', '==', a, b)


BOOLOPS = ('<', '==', '!', '&&', '||')


def is_bool(t):
    return (t.op == 'op' and t.args[0] in BOOLOPS) or t.op == 'any'


def not_(a):
    if isk(a):
        return k(not kval(a))
    if a.op == 'op' and a.args[0] == '!':
        return a.args[1]
    if a.op == 'op' and a.args[0] == '&&':
        return or_(not_(a.args[1]), not_(a.args[2]))
    if a.op == 'op' and a.args[0] == '||':
        return and_(not_(a.args[1]), not_(a.args[2]))
    if is_bool(a):
        return T('op', '!', a)
    return truth_term(a, False)


def truth_term(a, pos=True):
    """the boolean term 'a is true' (a != 0)"""
    if isk(a):
        return k(bool(kval(a)) == pos)
    if is_bool(a):
        return a if pos else not_(a)
    if a.op in ('addr', 'lam', 'bind', 'fn', 'str'):
        return k(pos)
    if a.op == 'null':
        return k(not pos)
    if a.op == 'poly':
        q = dict(a.args)
        if len(q) == 2 and q.get(()) == 1:
            m, = [m for m in q if m != ()]
            if len(m) == 1 and is_bool(m[0]) and q[m] == -1:
                return m[0] if not pos else not_(m[0])
    if a.op == 'phi' and a.args[0][0] == 'gate' and all(isk(x) or is_bool(x) for x in a.args[1:]):
        t = a.args[0][1]
        r = or_(and_(t, truth_term(a.args[1])), and_(not_(t), truth_term(a.args[2])))
        return r if pos else not_(r)
    z = T('op', '==', a, ZERO)
    return T('op', '!', z) if pos else z


def _flat(o, t):
    if t.op == 'op' and t.args[0] == o:
        return _flat(o, t.args[1]) | _flat(o, t.args[2])
    return {t}


def and_(a, b):
    if isk(a):
        return b if kval(a) else ZERO
    if isk(b):
        return a if kval(b) else ZERO
    if a is b:
        return a
    xs = _flat('&&', a) | _flat('&&', b)
    for x in xs:
        if x.op == 'op' and x.args[0] == '!' and x.args[1] in xs:
            return ZERO
    xs = sorted(xs, key=lambda x: x.id)
    r = xs[0]
    for x in xs[1:]:
        r = T('op', '&&', r, x)
    return r


def or_(a, b):
    if isk(a):
        return ONE if kval(a) else b
    if isk(b):
        return ONE if kval(b) else a
    if a is b:
        return a
    xs = _flat('||', a) | _flat('||', b)
    for x in xs:
        if x.op == 'op' and x.args[0] == '!' and x.args[1] in xs:
            return ONE
    xs = sorted(xs, key=lambda x: x.id)
    r = xs[0]
    for x in xs[1:]:
        r = T('op', '||', r, x)
    return r


def cmp(op, a, b):
    if op == '<':
        return lt(a, b)
    if op == '>':
        return lt(b, a)
    if op == '>=':
        return not_(lt(a, b))
    if op == '<=':
        return not_(lt(b, a))
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return not_(eq(a, b))
    raise ValueError(op)


def subterms(t, seen=None):
    """all subterms of t (including through locations)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, Loc):
            if x in seen:
                continue
            seen.add(x)
            stack.append(x.root)
            stack.extend(x.path)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def rebuild(op, args):
    """rebuild a term after substitution, renormalising arithmetic"""
    if op == 'poly':
        r = ZERO
        for m, c in args:
            p = k(c)
            for t in m:
                p = mul(p, t)
            r = add(r, p)
        return r
    if op == 'op':
        o = args[0]
        if o == '<':
            return lt(args[1], args[2])
        if o == '==':
            return eq(args[1], args[2])
        if o == '!':
            return not_(args[1])
        if o == '&&':
            return and_(args[1], args[2])
        if o == '||':
            return or_(args[1], args[2])
        if o == 'inv':
            return inv(args[1])
        if o == '*':
            return mul(args[1], args[2])
    if op == 'phi':
        if args[0][0] == 'gate' and isinstance(args[0][1], T) and isk(args[0][1]):
            return args[1] if kval(args[0][1]) else args[2]
        return mkphi(args[0], list(args[1:]))
    if op == 'any':
        return mkany(*args)
    if op == 'fold' and args[1] is ZERO:
        return k(float('-inf') if args[0] == 'max' else float('inf'))
    if op == 'call' and args and args[0] in ('min', 'max') and len(args) == 3 and any(isk(a) and isinstance(kval(a), float) and kval(a) in (float('inf'), float('-inf')) for a in args[1:]):
        for a, b in ((args[1], args[2]), (args[2], args[1])):
            if isk(a) and kval(a) == (float('-inf') if args[0] == 'max' else float('inf')):
                return b
    if op == 'sum' and args[0] is ZERO:
        return ZERO
    if op == 'map' and args[2] is ZERO:
        return args[0]
    if op == 'app' and args[1] is ZERO:
        return args[0]
    return T(op, *args)


def mkphi(site, vals):
    """join of values; numeric ones are kept as v0 + phi(differences) so that
    quantities changed in the same way on every branch get the same term."""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    num = any(isnum(v) for v in vals) and not any(v.op in NONNUM or v.op == 'call' and str(v.args[0]).startswith('obj:') for v in vals)
    if site[0] == 'gate':
        t = site[1]
        a, b = vals
        # nested on the same gate
        if a.op == 'phi' and a.args[0] is site or a.op == 'phi' and a.args[0] == site:
            a = a.args[1]
        if b.op == 'phi' and b.args[0] == site:
            b = b.args[2]
        if a is b:
            return a
        if (is_bool(a) or isk(a)) and (is_bool(b) or isk(b)) and (is_bool(a) or is_bool(b)):
            return T('phi', site, a, b)
        if num:
            d = sub(a, b)
            if len(_mon(d)) == 1:
                return add(b, mul(d, t))
            return add(b, T('phi', site, d, ZERO))
        return T('phi', site, a, b)
    if num:
        d = [sub(v, v0) for v in vals]
        return add(v0, T('phi', site, *d))
    return T('phi', site, *vals)


def bvar(*ts):
    """a bound variable not bound inside any of ts"""
    d = 0
    for t in ts:
        for x in subterms(t):
            if isinstance(x, T) and x.op == 'bv':
                d = max(d, x.args[0] + 1)
    return T('bv', d)


def mkany(n, b, body):
    """exists 0 <= b < n with body"""
    if isk(body):
        return and_(lt(ZERO, n), body)
    if isk(n) and kval(n) <= 0:
        return ZERO
    if b not in subterms(body):
        return and_(lt(ZERO, n), body)
    return T('any', n, b, body)


def mkmap(base, lo, cnt, b, tails):
    return T('map', base, lo, cnt, b, tails)


NONNUM = ('addr', 'rec', 'cut', 'st', 'lam', 'fn', 'bind', 'str', 'iter', 'null', 'uninit', 'map')


def subst(x, m, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, T):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            na = tuple(subst(a, m, memo) for a in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) or na == x.args else rebuild(x.op, na)
            memo[x] = r
        return r
    if isinstance(x, Loc):
        np = subst(x.path, m, memo)
        nr = subst(x.root, m, memo)
        return Loc(nr, np) if (np != x.path or nr != x.root) else x
    if isinstance(x, tuple):
        return tuple(subst(a, m, memo) for a in x)
    return x


def show(t, d=6):
    if isinstance(t, Loc):
        return showloc(t, d)
    if isinstance(t, tuple):
        return '(' + ','.join(show(x, d) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return '..'
    o = t.op
    if o == 'k':
        return str(t.args[0])
    if o == 'str':
        return repr(t.args[0])
    if o == 'poly':
        out = []
        for m, c in t.args:
            s = '*'.join(show(x, d - 1) for x in m)
            if m == ():
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (c, s))
        return '(' + ' + '.join(out) + ')'
    if o == 'op':
        if len(t.args) == 3:
            return '(%s %s %s)' % (show(t.args[1], d - 1), t.args[0], show(t.args[2], d - 1))
        return '%s(%s)' % (t.args[0], ','.join(show(x, d - 1) for x in t.args[1:]))
    if o == 'init':
        return showloc(t.args[0], d)
    if o == 'call':
        return '%s(%s)' % (t.args[0], ','.join(show(x, d - 1) for x in t.args[1:]))
    if o == 'addr':
        return '&' + showloc(t.args[0], d)
    if o in ('loop', 'fresh', 'it'):
        h = t.args[-1]
        return '%s<%s>' % (o, show(h, d - 1) if isinstance(h, (T, Loc)) else h)
    if o == 'phi' and t.args[0][0] == 'gate':
        return '[%s ? %s : %s]' % (show(t.args[0][1], d - 1), show(t.args[1], d - 1), show(t.args[2], d - 1))
    if o == 'phi':
        return 'phi(%s)' % ','.join(show(x, d - 1) for x in t.args[1:])
    return '%s(%s)' % (o, ','.join(show(x, d - 1) for x in t.args))


def showloc(l, d=6):
    r = l.root
    if r[0] == 'this':
        s = 'this'
    elif r[0] == 'var':
        s = str(r[2])
    elif r[0] == 'parm':
        s = str(r[1])
    elif r[0] == 'glob':
        s = r[1]
    elif r[0] == 'tmp':
        s = 'tmp'
    elif r[0] == 'deref':
        s = '*' + show(r[1], d - 1)
    else:
        s = '/'.join(str(x) if not isinstance(x, (T, Loc)) else show(x, d - 1) for x in r)
    for c in l.path:
        if c[0] == '.':
            s += '.' + c[1].split('::')[-1]
        elif c[0] == '[]':
            s += '[%s]' % show(c[1], d - 1)
        else:
            s += '.%s(%s)' % (c[1], ','.join(show(x, d - 1) for x in c[2]))
    return s
