"""Random interpretation of value terms (Gulwani & Necula): two terms computed
by the dataflow analysis denote the same value when they agree under random
interpretations of their atoms.  Only terms are evaluated, never the program.

A vector valued term is interpreted by its component at a generic index, so
element-wise loops and vector expressions of the same quantity agree."""
import math, random
from .terms import *


def rnd9(v):
    return float('%.9g' % v) + 0.0


_DEPS = {}


def deps(t):
    """bound indices the value of a term may depend on"""
    r = _DEPS.get(t, 0)
    if r == 0:
        out = set()
        if t.op == 'bv':
            out.add(t)
        stack = list(t.args)
        seen = set()
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                if x in seen:
                    continue
                seen.add(x)
                out.update(deps(x))
            elif isinstance(x, Loc):
                stack.append(x.root)
                stack.extend(x.path)
            elif isinstance(x, tuple):
                stack.extend(x)
        r = tuple(sorted(out))
        _DEPS[t] = r
    return r


class RI:
    one_ = 1.0

    def mkey(self, t):
        d = deps(t)
        if not d:
            return t
        return (t,) + tuple(self.env.get(b) for b in d)

    def __init__(self, seed, facts=None, ints=False):
        self.seed = seed
        self.ints = ints
        self.memo = {}
        self.env = {}
        self.jstar = (0.137, 0.211, 0.173)
        self.facts = facts or {}

    def h(self, *key):
        r = random.Random(repr((self.seed,) + key))
        if self.ints:
            return float(r.randint(0, 9))
        return r.uniform(0.3, 3.0)

    def key(self, x):
        if isinstance(x, T):
            v = self.val(x)
            return rnd9(v) if isinstance(v, float) else v
        if isinstance(x, Loc):
            return (self.key(x.root), self.key(x.path))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def val(self, t):
        mk = self.mkey(t)
        r = self.memo.get(mk)
        if r is None:
            if t in self.facts:
                r = float(self.facts[t])
            else:
                r = self.ev(t)
            if isinstance(r, float) and (r != r or abs(r) > 1e15):
                r = self.h('big', r if r == r else 'nan')
            self.memo[mk] = r
        return r

    def num(self, t):
        return self.val(t)

    def bound(self, b, v, body):
        old = self.env.get(b)
        self.env[b] = v
        try:
            return self.val(body)
        finally:
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old

    def locval(self, l):
        """value of an initial location; a trailing index selects a component"""
        p = l.path
        j = None
        if p and p[-1][0] == '[]' and isinstance(p[-1][1], T):
            j = rnd9(self.val(p[-1][1]))
            p = p[:-1]
        if j is None:
            j = self.jstar[0]
        return self.h('loc', self.key(l.root), self.key(p), j)

    def points(self, n):
        nv = self.val(n)
        if self.ints:
            return [float(i) for i in range(int(min(max(nv, 0), 12)))]
        return [f * abs(nv) if nv else f for f in (0.11, 0.37, 0.71)]

    def ev(self, t):
        o = t.op
        if o == 'k':
            v = t.args[0]
            return float(v) if isinstance(v, (int, float)) else self.h('k', v)
        if o == 'poly':
            s = mag = 0.0
            for m, c in t.args:
                p = float(c)
                for x in m:
                    p *= self.val(x)
                s += p
                mag += abs(p)
            return s if abs(s) > 1e-9 * mag else 0.0
        if o == 'bv':
            return self.env.get(t, self.h('bv', t.args[0]))
        if o == 'init' and isinstance(t.args[0], Loc):
            return self.locval(t.args[0])
        if o == 'sum':
            n, b, body = t.args
            nv = self.val(n)
            return sum(self.bound(b, f * abs(nv) if nv else f, body) for f in (0.11, 0.37, 0.71))
        if o in ('any', 'first'):
            n, b, body = t.args
            for i, x in enumerate(self.points(n)):
                if self.bound(b, x, body):
                    return 1.0 if o == 'any' else float(x)
            return 0.0 if o == 'any' else -1.0
        if o == 'fold':
            op, n, b, body = t.args
            vs = [self.bound(b, x, body) for x in self.points(n)]
            return (min if op == 'min' else max)(vs) if vs else self.h('fold0', op)
        if o == 'map':
            base, lo, n, b, tails = t.args
            if len(tails) == 1 and not tails[0][1]:
                d = 0 if tails[0][0] == ('[]',) else 1
                j = self.jstar[d]
                inr = and_(not_(lt(b, lo)), lt(b, add(lo, n)))
                r = self.bound(b, j, tails[0][2]) if self.bound(b, j, inr) else self.val(base)
                return r
            return self.h('map', self.key(base), self.key(lo), self.key(n), tuple(
                (kd, tl, rnd9(self.bound(b, self.jstar[0], x))) for kd, tl, x in tails))
        if o == 'op':
            n = t.args[0]
            a = [self.val(x) for x in t.args[1:]]
            if n == '<':
                return float(a[0] < a[1] - 1e-9 * max(1e-3, abs(a[0]), abs(a[1])))
            if n == '==':
                return float(abs(a[0] - a[1]) <= 1e-9 * max(1.0, abs(a[0]), abs(a[1])))
            if n == '!':
                return float(not a[0])
            if n == '&&':
                return float(bool(a[0]) and bool(a[1]))
            if n == '||':
                return float(bool(a[0]) or bool(a[1]))
            if n == 'inv':
                return 1.0 / a[0] if abs(a[0]) > 1e-12 else self.h('inv0')
            if n == '*':
                return a[0] * a[1]
            return self.h('op', n, *[rnd9(x) for x in a])
        if o == 'call':
            n = t.args[0]
            if n == 'Constant':
                return self.val(t.args[-1])
            if n in ('setZero',):
                return 0.0
            if n == 'setConstant':
                return self.val(t.args[-1])
            if n == 'mm' or n == 'mul':
                r = 1.0
                for i, x in enumerate(t.args[1:]):
                    r *= self.val(x)
                return r * self.h('mm')
            if n in ('transpose', 'asvec'):
                return self.val(t.args[1])
            if n == 'squaredNorm':
                return self.h('norm', rnd9(self.val(t.args[1]))) ** 2
            if n == 'norm':
                return self.h('norm', rnd9(self.val(t.args[1])))
            if n in FUN:
                a = [self.val(x) for x in t.args[1:]]
                try:
                    return float(FUN[n](*a))
                except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                    return self.h('callx', n, *[rnd9(x) for x in a])
            return self.h('call', n, *[self.key(x) for x in t.args[1:]])
        if o == 'phi' and t.args[0][0] == 'gate':
            return self.val(t.args[1]) if self.val(t.args[0][1]) else self.val(t.args[2])
        return self.h(o, *[self.key(x) for x in t.args])


def _pow(a, b):
    return a ** b if a > 0 or b == int(b) else math.nan


FUN = {'sqrt': math.sqrt, 'fabs': abs, 'abs': abs, 'exp': math.exp, 'log': math.log, 'pow': _pow,
       'min': min, 'max': max, 'floor': math.floor, 'ceil': math.ceil, 'int': math.trunc, 'trunc': math.trunc,
       'cwiseProduct': lambda a, b: a * b, 'cwiseQuotient': lambda a, b: a / b,
       'cwiseInverse': lambda a: 1 / a, 'cwiseSqrt': math.sqrt, 'cwiseAbs': abs, 'array': lambda a: a, 'matrix': lambda a: a,
       'log10': math.log10, 'round': round, 'square': lambda a: a * a, 'inverse': lambda a: 1 / a,
       'isnan': lambda a: 0, 'isinf': lambda a: 0}


def leafy(t):
    return t.op == 'init' or t.op == 'k' and False or (t.op == 'call' and t.args[0] in ('size', 'rows', 'cols') and t.args[1].op == 'init')


def borders(*ts, loops=False):
    """comparisons of the terms with a leaf occurring linearly:
    [(difference polynomial, leaf)]"""
    out = []
    for t in subterms(tuple(ts)):
        if loops and isinstance(t, T) and t.op == 'call' and t.args[0] in ('min', 'max') and len(t.args) == 3:
            t = lt(t.args[1], t.args[2])
        if isinstance(t, T) and t.op == 'op' and t.args[0] in ('<', '=='):
            bv = {x for x in subterms(t) if isinstance(x, T) and x.op == 'bv'}
            if bv:
                if not loops:
                    continue
                t = subst(t, {x: ZERO for x in bv})
                if t.op != 'op' or t.args[0] not in ('<', '=='):
                    continue
            d = sub(t.args[1], t.args[2])
            ms = dict(d.args) if d.op == 'poly' else {(d,): 1}
            for m in ms:
                for x in m:
                    if leafy(x) and m.count(x) == 1 and not any(x in subterms(y) for m2 in ms for y in m2 if y is not x) and not any(x in m2 for m2 in ms if m2 != m):
                        out.append((ms, m, x))
    return out


def at_border(bs, r, facts, rnd, ints):
    """move one input so that one comparison is at, just below or just above
    its boundary under the interpretation r"""
    ms, m, x = rnd.choice(bs)
    one = r.one_
    co = one * one.__class__(float(ms[m]))
    for y in m:
        if y is not x:
            co *= r.num(y)
    rest = sum((one.__class__(float(c)) * _prod(r, mm) for mm, c in ms.items() if mm != m), one - one)
    if abs(co) < 1e-30:
        return
    v = -rest / co
    e = rnd.choice((0, 0, 1, -1))
    if ints is None:
        from .matint import SHAPES, INTS, SIZES, POSITIVE, Mat
        if x.op == 'call' and isinstance(r.val(x.args[1]), Mat):
            return
        l = x.args[0] if x.op == 'init' else None
        fl = l.path[-1][1] if l is not None and l.path and l.path[-1][0] == '.' else None
        if fl and fl.split('::')[-1] in SIZES or SHAPES.get(fl, '').startswith('bool'):
            return
        ints = fl is None or SHAPES.get(fl, '') in INTS
        if l is not None and l.path and l.path[-1][0] != '.':
            ints = False
            if v <= 0 and any(c[0] == '.' and c[1].split('::')[-1] in POSITIVE for c in l.path):
                return
    if ints:
        v = round(v) + e
    else:
        v += one.__class__(e * 1e-3) * max(abs(v), one)
    if abs(v) < 1e40:
        facts[x] = v


def _prod(r, m):
    p = r.one_
    for y in m:
        p *= r.num(y)
    return p


def close(x, y):
    """1: same value, 0: different, -1: too close to tell apart from rounding"""
    from decimal import Decimal
    if hasattr(x, 'flat') or hasattr(y, 'flat'):
        from .matint import flat
        x, y = flat(x), flat(y)
        if len(x) != len(y):
            return 0
        cs = [close(u, v) if not isinstance(u, tuple) and not isinstance(v, tuple) else int(u == v) for u, v in zip(x, y)]
        return 0 if 0 in cs else -1 if -1 in cs else 1
    nx, ny = isinstance(x, (float, Decimal)), isinstance(y, (float, Decimal))
    if not nx or not ny:
        if nx or ny:
            if x == 0 and not any(getattr(y, 'd', [1])) or y == 0 and not any(getattr(x, 'd', [1])):
                return 1
            x, y = getattr(x, 'd', [x]), getattr(y, 'd', [y])
            if len(x) != len(y):
                return 0
        elif not hasattr(x, 'r') or not hasattr(y, 'r'):
            return 0
        elif (x.r, x.c) != (y.r, y.c):
            return 0
        else:
            x, y = x.d, y.d
        cs = [close(u, v) for u, v in zip(x, y)]
        return 0 if 0 in cs else -1 if -1 in cs else 1
    d, m = float(abs(x - y)), max(float(abs(x)), float(abs(y)))
    if isinstance(x, Decimal):      # computed with many digits
        return 1 if d <= 1e-9 * m or d < 1e-40 else -1 if d <= 1e-6 * m else 0
    m = max(1.0, m)
    return 1 if d <= 1e-7 * m else -1 if d <= 1e-4 * m else 0


def agree_border(a, b, n=60, seed=11, ints=False, facts=None, cls=RI):
    """agreement with inputs placed at the boundaries of the comparisons"""
    bs = sorted(borders(a, b), key=lambda x: (str(x[2]), str(x[1])))
    if not bs or a is b:
        return 1.0
    eqs = _eqs(a, b)
    ok = skip = 0
    for i in range(n):
        rnd = random.Random(repr((seed, i, 'bd')))
        f = dict(facts or {})
        _pick_eqs(eqs, f, rnd)
        for _ in range(rnd.choice((1, 1, 2, 3))):
            at_border(bs, cls((seed, i), f, ints), f, rnd, ints)
        r = cls((seed, i), f, ints)
        x, y = r.val(a), r.val(b)
        c = close(x, y)
        ok += c > 0
        skip += c < 0
    return (ok + skip) / n if 2 * skip < n else ok / n


def _eqs(a, b):
    eqs = {}
    for t in subterms((a, b)):
        if isinstance(t, T) and t.op == 'op' and t.args[0] == '==' and isk(t.args[2]) and leafy(t.args[1]) and isinstance(kval(t.args[2]), (int, float)):
            eqs.setdefault(t.args[1], set()).add(float(kval(t.args[2])))
    return sorted(eqs.items(), key=lambda x: str(x[0]))


def _pick_eqs(eqs, f, rnd):
    for t, cs in eqs:
        c = rnd.choice(sorted(cs) + [None])
        if c is not None and t not in f:
            f[t] = c


DEBUG = False
MATOPS = {'asvec', 'mm', 'dot', 'norm', 'squaredNorm', 'cwiseProduct', 'transpose', 'Constant', 'mat', 'maxCoeff', 'minCoeff', 'replicate', 'asDiagonal',
          'cwiseQuotient', 'cwiseMax', 'cwiseMin', 'trace', 'mean', 'prod', 'operatorInverseSqrt', 'operatorSqrt', 'eigenvalues', 'eigenvectors',
          'setZero', 'setConstant', 'cwiseInverse', 'cwiseSqrt', 'cwiseAbs', 'Identity', 'transf', 'ptrvec', 'head', 'resize', 'coladd', 'NullaryExpr', 'draw', 'next', 'pt', 'objective', 'matrixL'}


_EQ = {}


def equal(a, b, okcall=None):
    """'yes' when the terms agree under every interpretation tried, 'no' when
    they definitely differ, 'unknown' otherwise"""
    if a is b:
        return 'yes'
    if okcall is None and (a, b) in _EQ:
        return _EQ[a, b]
    r = typed(a, b, okcall)
    if r is None:
        r = untyped(a, b, okcall)
    if okcall is None:
        _EQ[a, b] = r
    return r


def untyped(a, b, okcall):
    rs = [agree(a, b, 24), agree(a, b, 24, ints=True), agree_border(a, b), agree_border(a, b, ints=True)]
    if all(r == 1 for r in rs):
        return 'yes'
    if any(not (x.op == 'call' and okcall and okcall(x)) for x in opaque_parts((a, b))):
        return 'unknown'
    if kinds(a) != kinds(b):
        return 'unknown'
    return 'no' if min(rs[0], rs[2]) < 1 and min(rs[1], rs[3]) < 1 else 'unknown'


def kinds(t):
    """reductions used by a term: the component-wise interpretation does not
    relate different kinds"""
    out = set()
    for x in subterms(t):
        if isinstance(x, T):
            if x.op == 'sum':
                out.add(('sum', x.args[0]))
            elif x.op == 'call' and x.args[0] in ('mm', 'dot', 'norm', 'squaredNorm', 'sum', 'maxCoeff', 'minCoeff'):
                out.add('norm' if x.args[0] == 'squaredNorm' else x.args[0])
    return out


OKTYPED = MATOPS | {'sorted', 'reranked', 'nth', 'push', 'upd:vector::erase', 'new_vector', 'copy_n', 'empty_vector', 'upd:unordered_map::erase'}


def typed(a, b, okcall=None, n=80, nb=240, seed=17):
    """decision over typed random inputs; None when the terms are outside of the
    modelled algebra"""
    from .matint import MI, NoShape
    if any(isinstance(x, T) and x.op == 'cut' for x in subterms((a, b))):
        n, nb = 4 * n, 3 * nb
    eqs = _eqs(a, b)
    bs = sorted(borders(a, b, loops=True), key=lambda x: (str(x[2]), str(x[1])))
    ok = bad = skip = 0
    err = None
    for i in range(n + (nb if bs else 0)):
        rnd = random.Random(repr((seed, i, 'ty')))
        f = {}
        try:
            _pick_eqs(eqs, f, rnd)
            if i >= n:
                for _ in range(rnd.choice((1, 1, 2, 3))):
                    at_border(bs, MI((seed, i), f), f, rnd, None)
            r = MI((seed, i), f)
            x, y = r.val(a), r.val(b)
        except (NoShape, RecursionError, ZeroDivisionError, OverflowError) as e:
            skip += 1
            err = e
            if i == 30 and skip == 31:
                break
            continue
        try:
            c = close(x, y)
        except NoShape as e:
            skip += 1
            err = e
            continue
        if c > 0:
            ok += 1
        elif c == 0:
            bad += 1
            if bad >= 3:
                break
    if DEBUG:
        print('typed: %d agree, %d differ, %d skipped (%r)' % (ok, bad, skip, err))
    if ok + bad < 20 and not bad:
        return None
    if not bad:
        return 'yes' if skip <= ok else None
    shared = set(opaque_parts(a)) & set(opaque_parts(b))
    for x in opaque_parts((a, b)):
        if x.op in ('call', 'uninit') and x in shared:
            continue        # a free input on both sides
        if x.op in ('sel', 'app') or x.op == 'uninit' and str(x.args[0] if x.args else '').startswith('libcmaes::') or x.op == 'call' and (x.args[0] in OKTYPED or str(x.args[0]).split('::')[-1] in ('pheno', 'geno') or str(x.args[0]).startswith('ctor:Eigen') or str(x.args[0]).startswith('ctor:SelfAdjoint') or okcall and okcall(x)):
            continue
        return 'unknown'
    return 'no'


def agree(a, b, n=12, seed=7, facts=None, ints=False, cls=RI):
    """fraction of random interpretations on which a and b agree"""
    if a is b:
        return 1.0
    k_ = skip = 0
    eqs = _eqs(a, b)
    for i in range(n):
        f = dict(facts or {})
        rnd = random.Random(repr((seed, i, 'eq')))
        _pick_eqs(eqs, f, rnd)
        r = cls((seed, i), f, ints)
        x, y = r.val(a), r.val(b)
        c = close(x, y)
        k_ += c > 0
        skip += c < 0
    return (k_ + skip) / n if 2 * skip < n else k_ / n


# operators with a fixed meaning: a disagreement between terms built from them
# alone is a real difference
KNOWN = set(FUN) | {'asvec', 'Constant', 'setZero', 'setConstant', 'mm', 'transpose', 'norm', 'squaredNorm', 'size', 'cols', 'rows', 'Identity'}


def opaque_parts(t):
    """sub-terms whose value the analysis does not model"""
    out = []
    for x in subterms(t):
        if isinstance(x, T):
            if x.op in ('loop', 'fresh', 'uninit', 'sel', 'app') or (x.op == 'phi' and x.args[0][0] != 'gate'):
                out.append(x)
            elif x.op == 'call' and x.args[0] not in KNOWN and not str(x.args[0]).startswith('limits:'):
                out.append(x)
    return out


def differ(a, b, okcall=None, facts=None):
    """do a and b definitely denote different values?  True only when both are
    built from modelled operators over independent inputs and they disagree
    under real as well as under integer interpretations"""
    for x in opaque_parts((a, b)):
        if not (x.op == 'call' and okcall and okcall(x)):
            return False
    n = 24
    return agree(a, b, n, facts=facts) <= 0.9 and agree(a, b, n, facts=facts, ints=True) <= 0.9
