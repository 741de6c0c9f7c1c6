"""Data-race freedom of every OpenMP region: all accesses made in the region
(directly or in called functions, analysed in context) are collected with their
access paths as functions of the iteration number; a write to storage shared by
the team must be disjoint, for different iterations, from every other access to
it (linear index arithmetic), or be protected by critical/atomic/reduction."""
from ..scen import *
from ..terms import _mon

ASSUMPTIONS = ['the user objective and user transforms are themselves safe to call concurrently',
               'OpenMP worksharing loops without nowait end with a barrier']
SAFE = ('std::cout', 'std::cerr', 'std::clog')
FORS = ('for', 'parallel for', 'parallel for simd', 'for simd', 'taskloop')


class Region:
    def __init__(self, n, fr, where, entry):
        self.n, self.fr, self.where, self.entry = n, fr, where, entry
        self.acc = {}      # (loc, 'w'/'r', guards) -> where
        self.phase = 0


class R(Rule):
    def __init__(self):
        self.stack = []
        self.regions = []
        self.own = 0

    def on_omp(self, I, st, fr, n, enter):
        d = n['dir']
        if d not in FORS and not d.startswith('parallel') and d not in ('sections',):
            return
        if enter:
            roots = {l.root for l in st.env} | {l.root for l in st.refs.values()}
            r = Region(n, fr, I.where(fr, n), roots)
            self.stack.append(r)
            if not I.silent:
                self.regions.append(r)
        elif self.stack and self.stack[-1].n is n:
            self.stack.pop()

    def shared(self, r, loc):
        k0 = loc.root[0]
        if k0 == 'var':
            # declared before the region, and not listed as private
            nm = loc.root[2]
            for c in r.n.get('clauses', []):
                if c['kind'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                    if any(v.get('n') == nm for v in c.get('vars', [])):
                        return False
            return loc.root in r.entry
        if k0 == 'tmp':
            return loc.root in r.entry
        if k0 == 'glob':
            return loc.root[1] not in SAFE
        if k0 in ('deref', 'it', 'ghost'):
            return False
        return True

    def note(self, I, st, fr, loc, kind, where):
        if I.silent:
            return
        for r in self.stack:
            if self.shared(r, loc):
                g = ()
                f = fr
                if f is not None:
                    g = tuple(x['dir'] for x in f.omp if x['dir'] in ('critical', 'atomic', 'single', 'master', 'masked', 'ordered'))
                r.acc.setdefault((loc, kind, g), where)

    def on_write(self, I, st, fr, n, loc, val):
        if self.stack:
            self.note(I, st, fr, loc, 'w', I.where(fr, n))

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        return None


def loops_in(x, fr):
    return None


def coef(t, it):
    p = _mon(t)
    c = p.get((it,), 0)
    rest = [m for m in p if m != (it,) and any(it in subterms(y) for y in m)]
    return c, bool(rest)


def lin(t, priv):
    """(coefs on private counters, invariant rest) or None"""
    p = _mon(t)
    cs, rest = {}, {}
    for m, c in p.items():
        if len(m) == 1 and m[0] in priv:
            cs[m[0]] = c
        else:
            if any(y in priv for x in m for y in subterms(x) if isinstance(y, T)):
                return None
            rest[m] = c
    return cs, rest


def volatile(t, its):
    for x in subterms(t):
        if isinstance(x, T) and x.op in ('fresh', 'loop', 'uninit', 'bv'):
            return True
    return False


def disjoint(p, q, it, inner):
    """can access path p of one iteration overlap path q of another?
    -> 'no' | 'yes' | 'maybe'"""
    lo = hi = False
    unsure = False
    for a, b in zip(p, q):
        if a[0] == '.' and b[0] == '.':
            if a != b:
                return 'no'
            continue
        ia = list(a[2]) if a[0] == 'v' else [a[1]]
        ib = list(b[2]) if b[0] == 'v' else [b[1]]
        ka = a[1] if a[0] == 'v' else '[]'
        kb = b[1] if b[0] == 'v' else '[]'
        if ka != kb or len(ia) != len(ib):
            # a column against an element etc.
            if {ka, kb} == {'col', 'at2'} or {ka, kb} == {'row', 'at2'}:
                j = 1 if 'col' in (ka, kb) else 0
                ia = [ia[j]] if ka == 'at2' else ia
                ib = [ib[j]] if kb == 'at2' else ib
            else:
                unsure = True
                break
        elif ka not in ('[]', 'col', 'row', 'at2'):
            if a == b and not any(it in subterms(x) for x in ia):
                continue
            unsure = True
            continue
        for x, y in zip(ia, ib):
            if not isinstance(x, T) or not isinstance(y, T):
                if x != y:
                    unsure = True
                continue
            if volatile(x, None) or volatile(y, None):
                unsure = True
                continue
            lx, ly = lin(x, inner | {it}), lin(y, inner | {it})
            if lx is None or ly is None:
                unsure = True
                continue
            (cx, rx), (cy, ry) = lx, ly
            # x(i, s) - y(i', s') = 0
            r = sub(terms_mk(rx), terms_mk(ry))
            a1, b1 = cx.pop(it, 0), cy.pop(it, 0)
            if not isk(r):
                unsure = True
                continue
            r = kval(r)
            if a1 == 0 and b1 == 0:
                if not cx and not cy and r != 0:
                    return 'no'
                continue
            if a1 == b1 and a1 != 0:
                # a1*(i-i') = -r - cx.s + cy.s'
                if not cx and not cy:
                    if r == 0:
                        return 'no'          # same iteration
                    continue                 # distance fixed: conflict between neighbours
                if all(c >= 0 for c in cy.values()) and all(c <= 0 for c in [-v for v in cx.values()]) and r == 0 and not cx:
                    lo = True                # i - i' >= 0
                    continue
                if not cy and all(c >= 0 for c in cx.values()) and r == 0:
                    hi = True                # i - i' <= 0
                    continue
            unsure = True
    if lo and hi:
        return 'no'
    return 'maybe' if unsure else 'yes'


from ..terms import _mk as terms_mk


def analyse(ctx, I, r, tag):
    n = r.n
    body = n.get('s')
    while isinstance(body, dict) and body['k'] == 'Block' and len(body['s']) == 1:
        body = body['s'][0]
    it = T('it', r.fr.id, body['#']) if isinstance(body, dict) and body['k'] in ('For', 'RangeFor') else None
    accs = list(r.acc.items())
    writes = [(l, g, w) for (l, kd, g), w in accs if kd == 'w']
    key = '%s/%s' % (tag, r.where.split(':')[0].split('/')[-1])
    inner = set()
    for l, kd, g in r.acc:
        for x in subterms(l.path):
            if isinstance(x, T) and x.op == 'it' and x is not it:
                inner.add(x)
    if n['dir'] == 'parallel':
        # only what is outside worksharing constructs is executed by every thread
        inside = set()
        for q in r.nested:
            inside |= {(l, kd) for (l, kd, g) in q.acc}
        writes = [(l, g, w) for l, g, w in writes if (l, 'w') not in inside]
        accs = [((l, kd, g), w) for (l, kd, g), w in accs if (l, kd) not in inside]
    bad = False
    und = False
    # the loop variable itself is private
    lv = loopvar(body) if it is not None else None
    for l, g, w in writes:
        if lv is not None and l.root[0] == 'var' and l.root[1] == lv:
            continue
        for (l2, kd, g2), w2 in accs:
            if l2.root != l.root:
                continue
            if g and g2 and (('critical' in g and 'critical' in g2) or ('atomic' in g and 'atomic' in g2) or
                             set(g) & set(g2) & {'single', 'master', 'masked', 'ordered'}):
                continue
            if it is None:
                d = 'yes' if not g or set(g) <= {'critical', 'atomic'} else 'no'
                dd = disjoint(l.path, l2.path, T('none'), inner)
                if dd != 'yes':
                    d = dd
            else:
                d = disjoint(l.path, l2.path, it, inner)
            if d == 'yes':
                bad = True
                ctx.viol('%s/%s' % (key, showl(l)), w, 'threads of the region at %s %s %s, %s by another iteration at %s' % (
                    r.where, 'write', showl(l), 'written' if kd == 'w' else 'read', w2),
                    ['region entered at %s' % r.where, 'access 1 (write): %s at %s' % (showl(l), w), 'access 2 (%s): %s at %s' % (kd, showl(l2), w2)])
            elif d == 'maybe':
                und = True
                ctx.unk('%s/%s' % (key, showl(l)), w, 'may overlap %s' % showl(l2))
    if not bad:
        ctx.ok(key, r.where, '%d accesses to shared storage, %d writes, no conflicting pair' % (len(accs), len(writes)))


def showl(l):
    return showloc(l, 4)


def loopvar(f):
    for d in (f.get('init') or {}).get('d', []) if isinstance(f.get('init'), dict) else []:
        return d.get('v')
    i = f.get('init')
    if isinstance(i, dict):
        for x in walk(i):
            if x.get('k') == 'Var' or 'v' in x and 'n' in x and x.get('k') in ('Var', None):
                return x.get('v')
            if x.get('k') == 'Ref':
                return x.get('v')
    return None


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def check(ctx):
    P = ctx.P
    n = 0
    seen = set()
    for f in list(P.funcs.values()):
        if 'body' not in f:
            continue
        if not any(x.get('k') == 'OMP' for x in walk(f['body'])):
            continue
        if f.get('lambda'):
            continue
        r = R()
        I = Interp(P, r)
        I.rlog = lambda st, loc: r.note(I, st, None, loc, 'r', '') if r.stack else None
        cur = []
        try:
            res = I.run(f, dyn=f.get('cls'))
        except Giveup as e:
            ctx.unk(f['bare'], f['bare'], str(e))
        ctx.saw(I, f['bare'])
        for q in r.regions:
            q.nested = [z for z in r.regions if z is not q and any(y is z.n for y in walk(q.n.get('s')))]
            n += 1
            analyse(ctx, I, q, '%s' % f['bare'])
    ctx.notes.append('%d region instances' % n)
    if n == 0:
        ctx.ok('none', '', 'the library has no OpenMP region')
