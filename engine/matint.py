"""Typed random interpretation of value terms: inputs get random values of their
declared type (numbers of various magnitudes, flags, counts, small vectors and
matrices, containers), so products, transposes, norms, sorting and element loops
have their real meaning.  Only terms are evaluated, never the program.  A term
outside of the modelled algebra raises NoShape."""
import functools, math, random
import decimal
from decimal import Decimal
from fractions import Fraction
from .terms import *
from .randint import RI, FUN, rnd9

CTX = decimal.getcontext()
CTX.prec = 50
CTX.Emax, CTX.Emin = 10 ** 6, -10 ** 6
CTX.traps[decimal.Overflow] = CTX.traps[decimal.InvalidOperation] = CTX.traps[decimal.DivisionByZero] = True
SMALL = Decimal('1e-35')
SHAPES = {}     # qualified field -> type, filled by the model
PARMS = {}      # root of a parameter -> type, set by the comparison
COLUMN = ('_sepcov', '_sepcsqinv', '_v')     # declared as matrices, always columns
SIZES = {'_dim': 'D', '_mu': 'M'}
POSITIVE = ('_sepcov', '_sepcsqinv', '_leigenvalues', '_weights', '_r', '_al', '_au')
SIGNED = ('_fvalue', '_ftarget', '_tpa_s', '_x', '_xmean', '_pc', '_psigma', '_v', 'double')
FRACTION = ('_thetauh', '_rlambda')
INTS = ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'short', 'Eigen::Index')


class NoShape(Exception):
    pass


class Mat:
    __slots__ = ('r', 'c', 'd')

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d
        if r < 0 or c < 0 or r * c > 400:
            raise NoShape('size')

    @staticmethod
    def fill(r, c, f):
        return Mat(r, c, [f(i, j) for i in range(r) for j in range(c)])

    def at(self, i, j):
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise NoShape('index')
        return self.d[i * self.c + j]

    def set(self, i, j, v):
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise NoShape('index')
        d = list(self.d)
        d[i * self.c + j] = v
        return Mat(self.r, self.c, d)

    def t(self):
        return Mat.fill(self.c, self.r, lambda i, j: self.at(j, i))

    def map(self, f):
        return Mat(self.r, self.c, [f(x) for x in self.d])

    def key(self):
        return (self.r, self.c) + tuple(rnd9(x) for x in self.d)


def ew(a, b, f):
    """element-wise, scalars broadcast"""
    if isinstance(a, (FS, Cont, Ob)) or isinstance(b, (FS, Cont, Ob)):
        raise NoShape('formal sum')
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.r, a.c) != (b.r, b.c):
            if a.r * a.c == 1:
                return ew(a.d[0], b, f)
            if b.r * b.c == 1:
                return ew(a, b.d[0], f)
            raise NoShape('shapes differ')
        return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.d, b.d)])
    if isinstance(a, Mat):
        return a.map(lambda x: f(x, b))
    if isinstance(b, Mat):
        return b.map(lambda y: f(a, y))
    return f(a, b)


class Cont:
    """container; its elements when they are known"""
    def __init__(self, base, n, l):
        self.base, self.n, self.l = base, Decimal(n), l

    def key(self):
        return self.base if self.l is None else tuple(x.key() if hasattr(x, 'key') else rnd9(x) for x in self.l)

    def flat(self):
        if self.l is None:
            return [('cont', self.base)]
        out = [self.n]
        for x in self.l:
            out += flat(x)
        return out


class Ob:
    """object: its initial value at a location, with some members replaced"""
    def __init__(self, mi, loc, cls, put=()):
        self.mi, self.loc, self.cls, self.put = mi, loc, cls, put

    def get(self, path):
        path = tuple(path)
        parts = []
        for p, v in reversed(self.put):
            if path[:len(p)] == p:
                r = self.mi.select(v, path[len(p):])
                for q, w in reversed(parts):
                    r = self.mi.put(r, q, w)
                return r
            if p[:len(path)] == path:
                parts.append((p[len(path):], v))
        if parts:
            if not path or path[-1][0] != '.' or SHAPES.get(path[-1][1]) not in CLASSES:
                raise NoShape('part of an object')
            return Ob(self.mi, None if self.loc is None else Loc(self.loc.root, self.loc.path + path), SHAPES[path[-1][1]], tuple(reversed(parts)))
        if self.loc is None:
            if path and path[-1][0] == '.':     # indeterminate
                return self.mi.leaf(Loc(('uninit', str(self.cls)), tuple(path)))
            raise NoShape('member not set')
        return self.mi.leaf(Loc(self.loc.root, self.loc.path + tuple(path)))

    def with_(self, path, v):
        return Ob(self.mi, self.loc, self.cls, self.put + ((tuple(path), v),))

    def flat(self):
        out = []
        for n in CLASSES.get(self.cls, ()):
            out += flat(self.get((('.', n),)))
        if not out:
            raise NoShape('object')
        return out

    def key(self):
        return tuple(rnd9(x) if isinstance(x, (float, Decimal)) else x for x in self.flat())


def flat(v):
    if isinstance(v, (Cont, Ob)):
        return v.flat()
    if isinstance(v, Mat):
        return [Decimal(v.r), Decimal(v.c)] + list(v.d)
    if isinstance(v, FS):
        raise NoShape('formal sum')
    return [v]


CLASSES = {}    # class -> qualified data members, filled by the model


class FS:
    """formal sum of values of different shapes"""
    def __init__(self, p):
        self.p = p

    def clean(self, mag):
        z = lambda x: x if abs(x) > SMALL * mag else Decimal(0)
        out = {sh: p.map(z) if isinstance(p, Mat) else z(p) for sh, p in self.p.items()}
        if len(out) > 1:
            nz = {sh: p for sh, p in out.items() if (any(p.d) if isinstance(p, Mat) else p)}
            out = nz or dict(list(out.items())[:1])
        if len(out) == 2 and None in out:      # number added to an array
            a, b = out.values()
            return ew(a, b, lambda x, y: x + y)
        if len(out) > 1:
            return FS(out)
        return list(out.values())[0] if out else Decimal(0)

    def key(self):
        raise NoShape('formal sum')


def plus(a, b):
    d = dict(a.p)
    for sh, x in (b.p.items() if isinstance(b, FS) else ((((b.r, b.c) if isinstance(b, Mat) else None), b),)):
        d[sh] = x if sh not in d else ew(d[sh], x, lambda u, v: u + v)
    return FS(d)


def times(a, b):
    if isinstance(a, FS) or isinstance(b, FS):
        if isinstance(a, Decimal):
            a, b = b, a
        if not isinstance(b, Decimal):
            raise NoShape('formal sum')
        return FS({sh: ew(x, b, lambda u, v: u * v) for sh, x in a.p.items()})
    return ew(a, b, lambda u, v: u * v)


def mmul(a, b):
    if isinstance(a, FS) or isinstance(b, FS):
        raise NoShape('formal sum')
    if not isinstance(a, Mat) or not isinstance(b, Mat):
        return ew(a, b, lambda x, y: x * y)
    if a.c != b.r:
        raise NoShape('product')
    return Mat.fill(a.r, b.c, lambda i, j: sum(a.at(i, k_) * b.at(k_, j) for k_ in range(a.c)))


def dsqrt(x):
    return abs(x).sqrt()


def dinv(x):
    return 1 / x if abs(x) > SMALL else Decimal('0.77')


RED = {'norm': lambda m: dsqrt(sum(x * x for x in m.d)), 'squaredNorm': lambda m: sum(x * x for x in m.d),
       'sum': lambda m: sum(m.d), 'maxCoeff': lambda m: max(m.d), 'minCoeff': lambda m: min(m.d), 'prod': lambda m: math.prod(m.d),
       'mean': lambda m: sum(m.d) / len(m.d), 'size': lambda m: Decimal(m.r * m.c), 'rows': lambda m: Decimal(m.r), 'cols': lambda m: Decimal(m.c),
       'trace': lambda m: sum(m.at(i, i) for i in range(m.r))}
CW = {'cwiseSqrt': dsqrt, 'cwiseInverse': dinv, 'cwiseAbs': abs, 'abs': abs, 'square': lambda x: x * x, 'sqrt': dsqrt, 'inverse': dinv,
      'exp': lambda x: min(x, Decimal(300)).exp(), 'log': lambda x: (abs(x) + SMALL).ln()}
NUM = {'sqrt': lambda x: x.sqrt(), 'exp': lambda x: x.exp() if abs(x) < 2000 else None, 'log': lambda x: x.ln() if x > 0 else None, 'fabs': abs, 'abs': abs,
       'pow': lambda x, y: x ** y if (x > 0 or y == int(y)) and abs(y) < 1000 else None, 'min': min, 'max': max,
       'floor': lambda x: x.to_integral_value(decimal.ROUND_FLOOR), 'ceil': lambda x: x.to_integral_value(decimal.ROUND_CEILING),
       'int': lambda x: Decimal(int(x)), 'trunc': lambda x: Decimal(int(x)), 'square': lambda x: x * x, 'log10': lambda x: x.log10() if x > 0 else None,
       'round': lambda x: x.to_integral_value(decimal.ROUND_HALF_UP)}
SQUARE = ('operatorInverseSqrt', 'operatorSqrt', 'eigenvectors')


@functools.lru_cache(None)
def coef(c):
    """coefficient folded in floating point: the simple fraction it stands for"""
    if isinstance(c, float):
        f = Fraction(c).limit_denominator(20000)
        if abs(f - Fraction(c)) > abs(Fraction(c)) * Fraction(1, 10 ** 15):
            return Decimal(c)
        c = f
    return Decimal(c.numerator) / Decimal(c.denominator)


BLOCKS = {'block': (4, lambda m, i, j, p, q: (i, j, p, q)), 'topRows': (1, lambda m, n: (0, 0, n, m.c)), 'bottomRows': (1, lambda m, n: (m.r - n, 0, n, m.c)),
          'leftCols': (1, lambda m, n: (0, 0, m.r, n)), 'rightCols': (1, lambda m, n: (0, m.c - n, m.r, n)),
          'middleCols': (2, lambda m, i, n: (0, i, m.r, n)), 'middleRows': (2, lambda m, i, n: (i, 0, n, m.c))}


class MI(RI):
    one_ = Decimal(1)
    columns = ()    # further matrices that are columns where they are used

    def __init__(self, seed, facts=None, ints=False):
        RI.__init__(self, seed, facts, False)
        r = random.Random(repr((seed, 'sizes')))
        d, m = r.choice(((3, 2), (2, 3), (4, 2), (3, 1), (3, 2), (2, 2), (11, 3), (5, 3)))
        self.sz = {'D': d, 'M': m, 'L': 2 * m + r.randint(0, 3)}
        self.wide = r.random() < 0.5
        self.elem = None
        self.over = {}      # chosen values of single elements
        for t, v in (facts or {}).items():
            if t.op == 'init' and t.args[0].path and t.args[0].path[-1][0] == '[]' and isk(t.args[0].path[-1][1]):
                l = t.args[0]
                self.over.setdefault((l.root, l.path[:-1]), {})[int(kval(l.path[-1][1]))] = Decimal(v)

    def h(self, *key):
        return Decimal(RI.h(self, *key))

    def number(self, nm, base, *idx):
        """random value of a floating point input"""
        r = random.Random(repr((self.seed,) + base))
        if nm in FRACTION:
            return Decimal(r.uniform(0.01, 0.99))
        sc = Decimal(10 ** r.uniform(-6, 6)) if self.wide and r.random() < 0.4 else 1
        v = sc * self.h(*base, *idx)
        if nm in SIGNED and random.Random(repr((self.seed, 'sign') + base + idx)).random() < 0.5:
            v = -v
        return v

    def integer(self, nm, ty, base):
        r = random.Random(repr((self.seed, 'i') + base))
        if ty == 'bool':
            return Decimal(r.randint(0, 1))
        if nm in SIZES:
            return Decimal(self.sz[SIZES[nm]])
        if nm in ('_tpa_p1', '_tpa_p2'):
            return Decimal(nm[-1] == '2')
        if nm == '_idx':
            return Decimal(r.randint(0, int(self.ncand()) - 1))
        if nm == '_lambda_reev':
            return Decimal(r.randint(1, 3))
        if nm == '_nrestarts':
            return Decimal(r.randint(0, 3))
        if nm == '_lambda':
            return Decimal(self.sz['L'])
        return Decimal(r.randint(0, 3) if r.random() < 0.5 else r.randint(0, 40))

    def key(self, x):
        if isinstance(x, T):
            v = self.val(x)
            return v.key() if isinstance(v, (Mat, FS, Cont, Ob)) else rnd9(v) if isinstance(v, (float, Decimal)) else v
        return RI.key(self, x)

    def val(self, t):
        mk = self.mkey(t)
        r = self.memo.get(mk)
        if r is None:
            if t in self.facts:
                r = Decimal(self.facts[t])
            else:
                try:
                    r = self.ev(t)
                except decimal.DecimalException:
                    raise NoShape('arithmetic')
            if isinstance(r, Mat) and r.r * r.c == 1:
                r = r.d[0]
            if isinstance(r, (int, float)):
                r = Decimal(r)
            self.memo[mk] = r
        return r

    def num(self, t):
        v = self.val(t)
        if isinstance(v, (Mat, FS, Cont, Ob)):
            if isinstance(v, Mat) and v.r * v.c == 1:
                return v.d[0]
            raise NoShape('matrix where a number is needed')
        return v

    def index(self, t):
        v = self.num(t) if isinstance(t, T) else t
        if abs(v - round(v)) > 1e-6:
            raise NoShape('index')
        return int(round(v))

    def leaf(self, l):
        """value of an initial location"""
        p = l.path
        n = len(p)
        if l.root[0] == 'elem' and self.elem:
            return self.select(self.elem[l.root[1]], p)
        # longest prefix that ends in a field of known type
        for i in range(n, -1, -1):
            if i == 0 or p[i - 1][0] == '.':
                if i == 0 and l.root not in PARMS:
                    break
                ty = SHAPES.get(p[i - 1][1]) if i else PARMS[l.root]
                if ty is None and i and p[i - 1][1].startswith('std::pair'):
                    continue
                if ty is None:
                    raise NoShape(str(p[i - 1][1]))
                nm = p[i - 1][1].split('::')[-1] if i else ''
                base = ('loc', self.key(l.root), self.key(p[:i]))
                rest = p[i:]
                if 'Eigen::Matrix<double, -1, 1' in ty or nm in COLUMN + self.columns and 'Eigen::Matrix<double, -1, -1' in ty:
                    sg = 'double' if nm not in POSITIVE else ''
                    ov = self.over.get((l.root, p[:i]), {})
                    m = Mat.fill(self.sz['M' if nm == '_weights' else 'D'], 1, lambda a, b: ov[a] if a in ov else self.number(sg, base, a))
                    return self.select(m, rest)
                if 'Eigen::Matrix<double, -1, -1' in ty:
                    m = Mat.fill(self.sz['D'], self.sz['D' if i else 'L'], lambda a, b: self.number('double' if a != b else '', base, a, b))
                    return self.select(m, rest)
                if ty.startswith('Eigen'):
                    raise NoShape(ty)
                if ty.startswith('std::'):
                    el = ty[ty.find('<') + 1:].split(',')[0].rstrip('>').strip()
                    if not rest:
                        if ty.startswith('std::vector<') and el in CLASSES:
                            n_ = int(self.count(base))
                            return Cont(base, n_, [Ob(self, Loc(l.root, p[:i] + (('[]', k(j)),)), el) for j in range(n_)])
                        if not ty.startswith('std::vector<') or el not in ('double',) + INTS:
                            return Cont(base, self.count(base), None)
                        return Cont(base, self.count(base), [self.number('double', base, ('[]', float(i))) if el == 'double' else self.integer('', el, base + (i,)) for i in range(int(self.count(base)))])
                    if ty.startswith('std::vector<') and len(rest) == 1 and rest[0][0] == '[]':
                        i_ = i
                        i = self.index(rest[0][1])
                        if el in CLASSES:
                            return Ob(self, Loc(l.root, p[:i_] + (('[]', k(i)),)), el)
                        return self.number('double', base, ('[]', float(i))) if el == 'double' else self.integer('', el, base + (i,)) if el in INTS + ('bool',) else self.h(*base, i)
                    if ty.startswith('std::unordered_map<int, double') and len(rest) == 2 and rest[0][0] == '[]' and rest[1][0] == '.':
                        # distinct keys among the coordinates
                        j = self.index(rest[0][1])
                        if not 0 <= j < self.sz['D']:
                            raise NoShape('map entry')
                        if rest[1][1].split('::')[-1] == 'first':
                            ks = list(range(self.sz['D']))
                            random.Random(repr((self.seed, 'keys') + base)).shuffle(ks)
                            return Decimal(ks[j])
                        return self.number('double', base, j)
                    raise NoShape(ty)
                if not rest:
                    if ty in INTS + ('bool',) or nm in SIZES:
                        return self.integer(nm, ty, base)
                    if ty in ('double', 'float'):
                        return self.number(nm, base)
                    if ty in CLASSES:
                        return Ob(self, l, ty)
                return self.h(*base, self.key(rest))
        raise NoShape('location')

    def ncand(self):
        return Decimal(self.sz['L'])

    def count(self, base):
        r = random.Random(repr((self.seed, 'n') + base))
        if '_candidates' in str(base[-1])[-20:]:
            return self.ncand()
        if '_fixed_p' in str(base[-1])[-14:]:
            return Decimal(r.randint(0, min(3, self.sz['D'])))
        return Decimal(r.randint(0, 3) if r.random() < 0.4 else r.randint(0, 45))

    def select(self, m, path):
        for i, c in enumerate(path):
            if isinstance(m, FS):
                raise NoShape('formal sum')
            if isinstance(m, Ob):
                return m.get(tuple(path[i:]))
            if isinstance(m, Cont):
                if c[0] != '[]' or m.l is None:
                    raise NoShape('element')
                j = self.index(c[1])
                m = m.l[j] if 0 <= j < len(m.l) else self.h('outside', m.key(), j)
                continue
            if not isinstance(m, Mat):
                m = Mat(1, 1, [m])
            if c[0] == '[]':
                j = self.index(c[1])
                m = m.at(j, 0) if m.c == 1 else m.at(0, j) if m.r == 1 else m.at(j % m.r, j // m.r)
            elif c[0] == 'v' and c[1] == 'at2':
                m = m.at(self.index(c[2][0]), self.index(c[2][1]))
            elif c[0] == 'v' and c[1] == 'col':
                j = self.index(c[2][0])
                m = Mat.fill(m.r, 1, lambda a, b, m=m: m.at(a, j))
            elif c[0] == 'v' and c[1] == 'row':
                j = self.index(c[2][0])
                m = Mat.fill(1, m.c, lambda a, b, m=m: m.at(j, b))
            elif c[0] == 'v' and c[1] in BLOCKS and len(c[2]) == BLOCKS[c[1]][0]:
                r0, c0, nr, nc = BLOCKS[c[1]][1](m, *[self.index(x) for x in c[2]])
                if min(r0, c0, nr, nc) < 0:
                    raise NoShape('index')
                m = Mat.fill(nr, nc, lambda a, b, m=m: m.at(r0 + a, c0 + b))
            elif c[0] == 'v' and c[1] == 'diagonal':
                m = Mat.fill(min(m.r, m.c), 1, lambda a, b, m=m: m.at(a, a))
            else:
                raise NoShape(str(c[1]))
        return m

    def store(self, m, c, v):
        """m with component c replaced"""
        if isinstance(m, Cont) and m.l is not None and c[0] == '[]':
            j = self.index(c[1])
            if not 0 <= j < len(m.l):
                raise NoShape('store')
            return Cont(None, m.n, m.l[:j] + [v] + m.l[j + 1:])
        if isinstance(m, Ob):
            return m.with_((c,), v)
        if not isinstance(m, Mat):
            raise NoShape('store')
        if c[0] == '[]':
            j = self.index(c[1])
            if isinstance(v, Mat):
                raise NoShape('store')
            return m.set(j, 0, v) if m.c == 1 else m.set(0, j, v) if m.r == 1 else m.set(j % m.r, j // m.r, v)
        if c[0] == 'v' and c[1] == 'at2':
            return m.set(self.index(c[2][0]), self.index(c[2][1]), v)
        if c[0] == 'v' and c[1] in ('col', 'row'):
            j = self.index(c[2][0])
            n = m.r if c[1] == 'col' else m.c
            for i in range(n):
                x = (v.d[i] if i < len(v.d) else self.bad('store')) if isinstance(v, Mat) else v
                m = m.set(i, j, x) if c[1] == 'col' else m.set(j, i, x)
            return m
        if c[0] == 'v' and c[1] in BLOCKS and len(c[2]) == BLOCKS[c[1]][0]:
            r0, c0, nr, nc = BLOCKS[c[1]][1](m, *[self.index(x) for x in c[2]])
            if min(r0, c0, nr, nc) < 0 or r0 + nr > m.r or c0 + nc > m.c:
                raise NoShape('index')
            if isinstance(v, Mat) and (v.r, v.c) != (nr, nc):
                raise NoShape('store')
            for i in range(nr):
                for j in range(nc):
                    m = m.set(r0 + i, c0 + j, v.at(i, j) if isinstance(v, Mat) else v)
            return m
        if c[0] == 'v' and c[1] == 'diagonal':
            for i in range(min(m.r, m.c)):
                m = m.set(i, i, (v.d[i] if i < len(v.d) else self.bad('store')) if isinstance(v, Mat) else v)
            return m
        raise NoShape(str(c[1]))

    def put(self, m, path, v):
        """m with the part at path replaced"""
        if not path:
            return v
        if isinstance(m, Ob):
            return m.with_(path, v)
        if len(path) == 1:
            return self.store(m, path[0], v)
        return self.store(m, path[0], self.put(self.select(m, path[:1]), path[1:], v))

    def ordered(self, l, cmp):
        """stable sort of the elements"""
        if not cmp:
            if any(isinstance(x, (Ob, Cont, Mat)) for x in l):
                raise NoShape('sort')
            return sorted(l)
        if cmp[0].op != 'cmp' or len(l) > 60:
            raise NoShape('sort')
        t = cmp[0].args[0]

        def before(a, b):
            m = MI(self.seed, self.facts)
            m.elem = {1: a, 2: b}
            return bool(m.num(t))
        return sorted(l, key=functools.cmp_to_key(lambda a, b: -1 if before(a, b) else 1 if before(b, a) else 0))

    def bad(self, w):
        raise NoShape(w)

    def points(self, n):
        m = self.index(n)
        if m > 60:
            raise NoShape('long loop')
        return [Decimal(i) for i in range(max(0, m))]

    def ev(self, t):
        o = t.op
        if o == 'k':
            v = t.args[0]
            return coef(v) if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e300 else Decimal(v) if isinstance(v, (int, float)) else self.h('k', v)
        if o == 'poly':
            # parts of different shapes (from the two branches of a join) are
            # summed separately; the wrong ones cancel
            out, mag = FS({}), Decimal(0)
            for m, c in t.args:
                p = coef(c)
                for x in m:
                    p = times(p, self.val(x))
                out = plus(out, p)
                for q in (p.p.values() if isinstance(p, FS) else (p,)):
                    mag = max(mag, max(map(abs, q.d), default=Decimal(0)) if isinstance(q, Mat) else abs(q))
            return out.clean(mag)
        if o == 'bv':
            if t in self.env:
                return self.env[t]
            raise NoShape('free index')
        if o == 'init' and isinstance(t.args[0], Loc):
            return self.leaf(t.args[0])
        if o == 'sum':
            n, b, body = t.args
            s = FS({})
            for x in self.points(n):
                s = plus(s, self.bound(b, x, body))
            return s.clean(Decimal(0))
        if o in ('any', 'first'):
            n, b, body = t.args
            for x in self.points(n):
                if self.bound(b, x, body):
                    return 1.0 if o == 'any' else float(x)
            return 0.0 if o == 'any' else -1.0
        if o == 'fold':
            op, n, b, body = t.args
            vs = [self.bound(b, x, body) for x in self.points(n)]
            return (min if op == 'min' else max)(vs) if vs else self.h('fold0', op)
        if o == 'app':
            base, n, b, body = t.args
            v = self.val(base)
            if not isinstance(v, Cont) or v.l is None:
                raise NoShape(o)
            l = v.l + [self.bound(b, x, body) for x in self.points(n)]
            return Cont(None, len(l), l)
        if o == 'sel':
            return self.select(self.val(t.args[0]), t.args[1])
        if o == 'st':
            m, p = self.val(t.args[0]), t.args[1]
            return self.put(m, p, self.val(t.args[2]))
        if o == 'map':
            base, lo, n, b, tails = t.args
            m = self.val(base)
            lo = self.index(lo)
            for x in self.points(n):
                for kd, tl, body in tails:
                    if tl and not isinstance(m, Cont):
                        raise NoShape('map')
                    i = k(int(x) + lo)
                    v = self.bound(b, x + lo, body)
                    m = self.put(m, (('[]', i) if kd == ('[]',) else ('v', kd[1], (i,)),) + tuple(tl), v)
            return m
        if o == 'phi' and t.args[0][0] == 'gate':
            return self.val(t.args[1]) if self.num(t.args[0][1]) else self.val(t.args[2])
        if o == 'op':
            n = t.args[0]
            if n == '&&':
                return float(bool(self.num(t.args[1])) and bool(self.num(t.args[2])))
            if n == '||':
                return float(bool(self.num(t.args[1])) or bool(self.num(t.args[2])))
            if n == 'inv':
                v = self.val(t.args[1])
                f = lambda x: 1 / x if abs(x) > SMALL else self.h('inv0')
                return v.map(f) if isinstance(v, Mat) else f(v)
            if n == '*':
                return ew(self.val(t.args[1]), self.val(t.args[2]), lambda a, b: a * b)
            if n == '==':
                a = [self.val(x) for x in t.args[1:]]
                if all(isinstance(x, Mat) for x in a) and (a[0].r, a[0].c) == (a[1].r, a[1].c):
                    return float(all(x == y for x, y in zip(a[0].d, a[1].d)))
            a = [self.num(x) for x in t.args[1:]]
            if n == 'idiv':
                return Decimal(int(a[0] / a[1])) if a[1] else self.h('idiv0')
            if n == '%':
                return a[0] % a[1] if a[1] else self.h('mod0')
            if n == '<':
                return float(a[0] < a[1] - SMALL * max(SMALL, abs(a[0]), abs(a[1])))
            if n == '==':
                return float(abs(a[0] - a[1]) <= SMALL * max(SMALL, abs(a[0]), abs(a[1])))
            if n == '!':
                return float(not a[0])
            return self.h('op', n, *[rnd9(x) for x in a])
        if o == 'call':
            return self.call(t)
        if o == 'rec':
            base = t.args[0]
            cls = t.args[1][0][0][-1][1].rsplit('::', 1)[0] if t.args[1] else None
            if base.op == 'uninit' and base.args:
                cls = str(base.args[0])
            r = Ob(self, None, cls) if base.op == 'uninit' else self.val(base)
            if not isinstance(r, Ob):
                raise NoShape('record')
            for p, v in t.args[1]:
                r = r.with_(p, self.val(v))
            return r
        if o == 'findpos':
            v = self.val(t.args[0])
            if not isinstance(v, Cont):
                raise NoShape(o)
            return Decimal(random.Random(repr((self.seed, 'find', v.key(), self.key(t.args[1])))).randint(0, int(v.n)))
        if o == 'uninit' and t.args and str(t.args[0]) in CLASSES:
            return Ob(self, None, str(t.args[0]))
        if o in ('addr', 'lam', 'fn', 'str', 'null', 'iter', 'cut'):
            raise NoShape(o)
        return self.h(o, *[self.key(x) for x in t.args])

    def call(self, t):
        n, a = t.args[0], t.args[1:]
        if n in ('Constant', 'mat', 'Identity'):
            ds = a[:-1] if n == 'Constant' else a
            d = [self.index(x) for x in ds]
            if len(d) == 1:
                d.append(1)
            if len(d) != 2:
                raise NoShape(n)
            if n == 'Constant':
                v = self.num(a[-1])
                return Mat.fill(d[0], d[1], lambda i, j: v)
            if n == 'Identity':
                return Mat.fill(d[0], d[1], lambda i, j: Decimal(int(i == j)))
            return Mat.fill(d[0], d[1], lambda i, j: self.h('uninit', i, j))
        if n == 'setZero' or n == 'setConstant':
            v = self.val(a[0])
            x = Decimal(0) if n == 'setZero' else self.num(a[-1])
            if isinstance(v, Mat) and len(a) == (1 if n == 'setZero' else 2):
                return v.map(lambda _: x)
            raise NoShape(n)
        if n == 'transf':
            v = self.val(a[1])
            if not isinstance(v, Mat):
                raise NoShape(n)
            f = self.ident(a[0])
            return Mat.fill(v.r, v.c, lambda i, j: self.h('transf', f, *v.key(), i, j) - 1)
        if n == 'NullaryExpr' and len(a) in (2, 3):
            f = self.ident(a[0])
            return Mat.fill(self.index(a[1]), self.index(a[2]) if len(a) == 3 else 1, lambda i, j: self.h('nullary', f, i, j) - 1)
        if n == 'coladd':
            m, v = self.val(a[0]), self.val(a[1])
            if not isinstance(m, Mat) or not isinstance(v, Mat) or v.c != 1 or v.r != m.r:
                raise NoShape(n)
            return Mat.fill(m.r, m.c, lambda i, j: m.at(i, j) + v.at(i, 0))
        if n == 'pt':
            return self.val(a[0])
        if n == 'resize' and len(a) in (2, 3):
            v = self.val(a[0])
            r, c = self.index(a[1]), self.index(a[2]) if len(a) == 3 else 1
            if isinstance(v, Mat) and (v.r, v.c) == (r, c):
                return v
            return Mat.fill(r, c, lambda i, j: self.h('uninit', i, j))
        if n == 'ptrvec':
            nm, base = 'double', ('ptr', self.key(a[0]))
            return Mat.fill(self.index(a[1]), 1, lambda i, j: self.number(nm, base, i))
        if n == 'head':
            v, c = self.val(a[0]), self.index(a[1])
            d = v.d if isinstance(v, Mat) and v.c == 1 else v.l if isinstance(v, Cont) else None
            if d is None or len(d) < c:
                raise NoShape(n)
            return Mat(c, 1, list(d[:c]))
        if n == 'mm':
            return mmul(self.val(a[0]), self.val(a[1]))
        if n == 'asvec':
            v = self.val(a[0])
            return v.t() if isinstance(v, Mat) and v.r == 1 else v
        if n == 'dot':
            u, v = self.val(a[0]), self.val(a[1])
            return self.one(mmul(u.t() if isinstance(u, Mat) else u, v))
        if n == 'transpose':
            v = self.val(a[0])
            return v.t() if isinstance(v, Mat) else v
        if n == 'cwiseProduct':
            return ew(self.val(a[0]), self.val(a[1]), lambda x, y: x * y)
        if n == 'cwiseQuotient':
            return ew(self.val(a[0]), self.val(a[1]), lambda x, y: x * dinv(y))
        if n in ('array', 'matrix', 'eval'):
            return self.val(a[0])
        if n == 'asDiagonal':
            v = self.val(a[0])
            if not isinstance(v, Mat) or v.c != 1:
                raise NoShape(n)
            return Mat.fill(v.r, v.r, lambda i, j: v.d[i] if i == j else Decimal(0))
        if n == 'replicate':
            v = self.val(a[0])
            r, c = self.index(a[1]), self.index(a[2])
            if not isinstance(v, Mat):
                return Mat.fill(r, c, lambda i, j: v)
            return Mat.fill(v.r * r, v.c * c, lambda i, j: v.at(i % v.r, j % v.c))
        if n in ('cwiseMax', 'cwiseMin'):
            return ew(self.val(a[0]), self.val(a[1]), max if n == 'cwiseMax' else min)
        if n in ('size', 'rows', 'cols', 'norm', 'squaredNorm', 'sum', 'maxCoeff', 'minCoeff', 'prod', 'mean', 'trace') and len(a) == 1:
            l = a[0].args[0] if a[0].op == 'init' and isinstance(a[0].args[0], Loc) else None
            try:
                v = self.val(a[0])
            except NoShape:
                if n == 'size' and l is not None:
                    return self.count(('loc', self.key(l.root), self.key(l.path)))
                raise
            if isinstance(v, Mat):
                return RED[n](v) if v.d else Decimal(0)
            if isinstance(v, Cont):
                if n == 'size':
                    return v.n
                raise NoShape(n)
            if n in ('norm', 'maxCoeff', 'minCoeff', 'sum'):
                return abs(v) if n == 'norm' else v
            raise NoShape(n)
        if n.startswith('obj:'):
            # an object of that class that depends on the arguments
            return Ob(self, Loc(('rv', n) + tuple(self.key(x) for x in a)), n[4:])
        if n in ('sorted', 'nth'):
            v = self.val(a[0])
            if isinstance(v, Cont) and v.l is not None:
                l = self.ordered(v.l, a[1:] if n == 'sorted' else a[2:])
                if n == 'nth':      # only that element is known
                    j = self.index(a[1])
                    l = [x if i == j else self.h('nth', i) for i, x in enumerate(l)]
                return Cont(None, v.n, l)
            raise NoShape(n)
        if n == 'reranked':
            # some order of the elements that depends on them
            v = self.val(a[0])
            if isinstance(v, Cont) and v.l is not None:
                l = list(v.l)
                random.Random(repr((self.seed, 'rerank', v.key()))).shuffle(l)
                return Cont(None, v.n, l)
            raise NoShape(n)
        if n == 'push':
            v = self.val(a[0])
            if isinstance(v, Cont) and v.l is not None:
                return Cont(None, v.n + 1, v.l + [self.val(a[1])])
            raise NoShape(n)
        if n == 'upd:vector::erase' and len(a) in (2, 3) and all(x.op == 'iter' for x in a[1:]):
            v = self.val(a[0])
            if isinstance(v, Cont) and v.l is not None:
                i = self.index(a[1].args[1])
                j = self.index(a[2].args[1]) if len(a) == 3 else i + 1
                if not 0 <= i <= j <= len(v.l):
                    raise NoShape(n)
                l = v.l[:i] + v.l[j:]
                return Cont(None, len(l), l)
            raise NoShape(n)
        if n == 'upd:unordered_map::erase' and len(a) == 2 and a[1].op == 'iter':
            v = self.val(a[0])
            if isinstance(v, Cont) and v.n > 0:
                return Cont(('erase', v.key(), self.key(a[1].args[1])), v.n - 1, None)
            raise NoShape(n)
        if n == 'new_vector' and 1 <= len(a) <= 2:
            m = self.index(a[0])
            x = self.num(a[1]) if len(a) == 2 else Decimal(0)
            if not 0 <= m <= 100:
                raise NoShape(n)
            return Cont(None, float(m), [x] * m)
        if n == 'empty_vector':
            return Cont(None, 0.0, [])
        if n == 'copy_n' and len(a) == 3:
            d, v, m = self.val(a[0]), self.val(a[1]), self.index(a[2])
            if isinstance(d, Cont) and isinstance(v, Cont) and d.l is not None and v.l is not None and 0 <= m <= len(d.l):
                if len(v.l) < m:
                    return Cont(None, d.n, [self.h('outside', v.key(), i) for i in range(len(d.l))])
                return Cont(None, d.n, v.l[:m] + d.l[m:])
            raise NoShape(n)
        if str(n).split('::')[-1] in ('pheno', 'geno') and a:
            v = self.val(a[-1])
            if not isinstance(v, Mat):
                v = Mat(1, 1, [v])
            ks = [n] + [self.key(x.args[0]) if isinstance(x, T) and x.op == 'init' else self.key(x) for x in a[:-1]] + [v.key()]
            return Mat.fill(v.r, v.c, lambda i, j: self.h(*ks, i, j))
        if n in ('draw', 'next'):
            return self.h(n, self.ident(a[0]))
        if str(n).endswith('_distribution::operator()'):
            return Decimal(random.Random(repr((self.seed, n) + tuple(self.ident(x) for x in a))).uniform(0, 1))
        if n == 'objective':
            # value of a function object: depends on the function and on the point
            return self.h(n, self.ident(a[0]), *[self.key(x) for x in a[1:]])
        vs = [self.val(x) if isinstance(x, T) else x for x in a]
        if n.startswith(('run', 'derived')):
            return self.h('call', n, *[x.key() if isinstance(x, (Mat, FS, Cont, Ob)) else rnd9(x) if isinstance(x, (float, Decimal)) else self.key(x) for x in vs])
        if any(isinstance(x, (FS, Cont, Ob)) for x in vs):
            raise NoShape('formal sum')
        if n in CW and len(vs) == 1 and isinstance(vs[0], Mat):
            return vs[0].map(CW[n])
        if n.startswith('limits:'):
            return Decimal(10) ** 12 if n in ('limits:infinity', 'limits:max') else Decimal('0.05') if n == 'limits:vanish' else self.h(n)
        if n in NUM and not any(isinstance(x, Mat) for x in vs):
            try:
                r = NUM[n](*vs)
            except (decimal.DecimalException, TypeError, ValueError, OverflowError):
                r = None
            return r if r is not None else self.h('callx', n, *[rnd9(x) for x in vs])
        if n in FUN and not any(isinstance(x, Mat) for x in vs):
            try:
                return float(FUN[n](*map(float, vs)))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                return self.h('callx', n, *[rnd9(x) for x in vs])
        key = [x.key() if isinstance(x, Mat) else rnd9(x) if isinstance(x, (float, Decimal)) else self.key(x) for x in vs]
        if n in SQUARE:
            return Mat.fill(self.sz['D'], self.sz['D'], lambda i, j: self.h('call', n, *key, i, j))
        if n == 'matrixL':
            return Mat.fill(self.sz['D'], self.sz['D'], lambda i, j: self.h('call', n, *key, i, j) if j <= i else Decimal(0))
        if n == 'eigenvalues':
            return Mat.fill(self.sz['D'], 1, lambda i, j: self.eigenvalue('call', n, *key, i))
        if n in ('block', 'tail', 'colwise', 'rowwise', 'Random', 'resize', 'conservativeResize'):
            raise NoShape(n)
        return self.h('call', n, *key)

    def eigenvalue(self, *key):
        r = random.Random(repr((self.seed, 'ev') + key)).random()
        v = self.h(*key)
        return -v / 10 if r < 0.1 else v / 1000 if r < 0.3 else v

    def ident(self, t):
        """identity of an input that is no number"""
        if t.op == 'init':
            return ('at', self.key(t.args[0]))
        if t.op == 'phi' and t.args[0][0] == 'gate':
            return self.ident(t.args[1] if self.num(t.args[0][1]) else t.args[2])
        if t.op == 'call' and t.args[0] in ('draw', 'next'):
            return (t.args[0],) + tuple(self.ident(x) for x in t.args[1:])
        return self.key(t)

    def one(self, m):
        if isinstance(m, Mat):
            if m.r * m.c != 1:
                raise NoShape('scalar')
            return m.d[0]
        return m
