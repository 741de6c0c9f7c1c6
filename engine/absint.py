"""Interprocedural value-numbering dataflow analysis over the extracted program.

The analysis propagates abstract states (location -> value term, path facts,
rule-specific typestate `aux`) through the structured control flow.  States are
joined at every control join (one state per distinct typestate, as in property
simulation), loops are solved by havocking what the body may write and
recognising induction variables, callees that live in the repository are
analysed in context, the standard library and Eigen are modelled as pure
operators / functional updates.  Nothing is executed and no path is handed to
a solver; facts are only used to discard syntactically contradictory branches.
"""
from .terms import *
from .terms import _mon
from .terms import _mk as terms_mk
from . import model

MAXDEPTH = 60


import os


class Giveup(Exception):
    pass


class St:
    __slots__ = ('env', 'refs', 'facts', 'aux')

    def __init__(self, env=None, refs=None, facts=None, aux=()):
        self.env = {} if env is None else env
        self.refs = {} if refs is None else refs
        self.facts = {} if facts is None else facts
        self.aux = aux

    def copy(self):
        return St(dict(self.env), dict(self.refs), dict(self.facts), self.aux)


class Frame:
    __slots__ = ('fid', 'func', 'parent', 'this', 'id', 'vars', 'depth', 'callnode', 'dyn', 'file', 'retref', 'omp')

    def __init__(self, func, parent, this, callnode):
        self.func = func
        self.fid = func['id'] if func else None
        self.parent = parent
        self.this = this
        self.callnode = callnode
        self.id = T('frame', parent.id if parent else None, callnode['#'] if callnode else 0, self.fid)
        self.vars = {}
        self.depth = parent.depth + 1 if parent else 0
        self.dyn = None
        self.file = func['body']['file'] if func and 'body' in func else None
        self.omp = parent.omp if parent else ()


class Rule:
    initial = None

    """Hooks; a check overrides what it needs."""
    inline_limit = MAXDEPTH
    hooks_on = True
    nothrow = False     # executions in which no exception is thrown

    def opaque(self, f):
        return False

    def key(self, st):
        return st.aux

    def on_call(self, I, st, fr, n, f, oloc, args):
        """Before a call to function record f (args: list of ('v',T)|('l',Loc)).
        May return a list [(value, st)] to replace the call."""
        return None

    def on_ext(self, I, st, fr, n, name, f, oloc, args):
        return None

    def on_write(self, I, st, fr, n, loc, val):
        pass

    def on_read(self, I, st, fr, n, loc):
        pass

    def on_fcall(self, I, st, fr, n, fn, args, oloc):
        """call of an unresolved function object"""
        return None

    def on_ctor(self, I, st, fr, n, f, loc, args):
        return None

    def on_return(self, I, st, fr, n, val):
        pass

    def on_omp(self, I, st, fr, n, enter):
        pass

    def on_loop(self, I, st, fr, n, phase):
        pass

    def on_branch(self, I, st, fr, n, cond):
        pass

    def unroll(self, I, written, n):
        """number of iterations to follow one by one (0: summarise the loop)"""
        return 0

    bounded = False     # executions with at most that many iterations of followed loops

    def cut(self, I, st):
        """the path leaves the iterations followed"""

    def on_throw(self, I, st, fr, n):
        pass


CONT = 'normal'


class Interp:
    def __init__(self, prog, rule=None, split=False, cap=24):
        self.P = prog
        self.rule = rule or Rule()
        self.silent = 0
        self.split = split
        self.cap = cap
        self.wlog = []          # stack of sets of written locations
        self.nodes = 0
        self.inlined = {}
        self.visited = set()
        self.loopinfo = {}
        self.imprecise = []
        self.dyncls = {}        # root -> dynamic class
        self._fieldcache = {}
        self.budget = 400000

    # ------------------------------------------------------------ reporting
    rlog = None
    #  loop symbol -> (value at loop entry, values at the back edges)

    def where(self, fr, n):
        return '%s:%s' % (model.short(fr.file or '?'), n.get('l', '?') if n else '?')

    def stack(self, fr):
        out = []
        while fr:
            if fr.func:
                out.append(fr.func['bare'])
            fr = fr.parent
        return out

    def fire(self, name, *a):
        # hooks always run (they may model effects); rules must not report
        # while self.silent (fixpoint passes)
        return getattr(self.rule, name)(self, *a)

    # ------------------------------------------------------------ memory
    @staticmethod
    def split_path(loc):
        """prefix up to the first index/view component"""
        for i, c in enumerate(loc.path):
            if c[0] != '.':
                return Loc(loc.root, loc.path[:i]), loc.path[i:]
        return loc, ()

    def read(self, st, loc):
        if self.rlog is not None and not self.silent:
            self.rlog(st, loc)
        base, idx = self.split_path(loc)
        v = self.read_plain(st, base)
        if idx:
            v = self.proj(v, idx)
        return v

    @staticmethod
    def targets(root):
        """alternatives of a reference joined over branches: (site, [Loc]) or None"""
        if root[0] == 'deref' and isinstance(root[1], T) and root[1].op == 'phi' and len(root[1].args) <= 5:
            as_ = root[1].args[1:]
            if all(a.op == 'addr' or (a.op == 'phi') for a in as_):
                ls = [a.args[0] if a.op == 'addr' else Loc(('deref', a)) for a in as_]
                return root[1].args[0], ls
        return None

    def read_plain(self, st, loc):
        env = st.env
        root, path = loc.root, loc.path
        if root[0] == 'deref':
            tg = self.targets(root)
            if tg and Loc(root) not in env:
                vs = []
                for l in tg[1]:
                    b, idx = self.split_path(Loc(l.root, l.path + path))
                    v = self.read_plain(st, b)
                    vs.append(self.proj(v, idx) if idx else v)
                return mkphi(tg[0], vs)
        v = None
        for i in range(len(path), -1, -1):
            l = Loc(root, path[:i])
            if l in env:
                v = env[l]
                if i < len(path):
                    v = self.proj(v, path[i:])
                break
        if v is None:
            v = self.initial(loc)
        # overlay deeper entries
        deeper = [l for l in env if l.root == root and len(l.path) > len(path) and l.path[:len(path)] == path]
        if deeper:
            ent = {}
            b = v
            if b.op == 'rec':
                ent = dict(b.args[1])
                b = b.args[0]
            for l in sorted(deeper, key=lambda x: len(x.path)):
                p = l.path[len(path):]
                for q in [q for q in ent if q[:len(p)] == p]:
                    del ent[q]
                ent[p] = env[l]
            v = self.mkrec(b, ent)
        return v

    def mkrec(self, base, ent):
        ent = {p: v for p, v in ent.items() if self.proj(base, p) is not v}
        if not ent:
            return base
        return T('rec', base, tuple(sorted(ent.items(), key=lambda pv: (len(pv[0]), str(pv[0])))))

    def initial(self, loc):
        h = getattr(self.rule, 'initial', None)
        if h is not None:
            v = h(self, loc)
            if v is not None:
                return v
        if loc.root[0] == 'glob' and not loc.path:
            c = self.P.constglobals().get(loc.root[1])
            if c is not None:
                return k(c)
        return T('init', loc)

    def proj(self, v, path):
        if not path:
            return v
        if v.op == 'init':
            l = v.args[0]
            return self.initial(Loc(l.root, l.path + path))
        if v.op == 'rec':
            base, ent = v.args
            best = None
            for p, x in ent:
                if path[:len(p)] == p:
                    if best is None or len(p) > len(best[0]):
                        best = (p, x)
            sub_ = {p[len(path):]: x for p, x in ent if len(p) > len(path) and p[:len(path)] == path}
            if best:
                r = self.proj(best[1], path[len(best[0]):])
            else:
                r = self.proj(base, path)
            if sub_:
                if r.op == 'rec':
                    e = dict(r.args[1])
                    e.update(sub_)
                    r = self.mkrec(r.args[0], e)
                else:
                    r = self.mkrec(r, sub_)
            return r
        if v.op == 'st':
            base, p, x = v.args
            rel = self.pathrel(p, path)
            if rel == 'eq':
                return x
            if rel == 'pre':      # p is a prefix of path
                return self.proj(x, path[len(p):])
            if rel == 'disj':
                return self.proj(base, path)
            return T('sel', v, path)
        if v.op == 'phi':
            return mkphi(v.args[0], [self.proj(x, path) for x in v.args[1:]])
        if v.op == 'sel':
            return T('sel', v.args[0], v.args[1] + path)
        if v.op == 'map':
            base, lo, cnt_, b, tails = v.args
            c = path[0]
            if c[0] == '[]' and tails[0][0] == ('[]',):
                i = c[1]
            elif c[0] == 'v' and tails[0][0] == ('v', c[1]) and len(c[2]) == 1:
                i = c[2][0]
            else:
                return T('sel', v, path)
            if not isinstance(i, T):
                return T('sel', v, path)
            rest = path[1:]
            for kd, tl, x in tails:
                if rest[:len(tl)] == tl:
                    inr = and_(not_(lt(i, lo)), lt(i, add(lo, cnt_)))
                    return mkphi(('gate', inr), [self.proj(subst(x, {b: i}), rest[len(tl):]), self.proj(base, path)]) if not isk(inr) else (
                        self.proj(subst(x, {b: i}), rest[len(tl):]) if kval(inr) else self.proj(base, path))
            if not any(tl[:len(rest)] == rest for kd, tl, x in tails):
                return self.proj(base, path)
            return T('sel', v, path)
        if v.op == 'app' and path[0][0] == '[]' and isinstance(path[0][1], T) and v.args[0].op == 'call' and str(v.args[0].args[0]).startswith('empty_'):
            return self.proj(subst(v.args[3], {v.args[2]: path[0][1]}), path[1:])
        if v.op == 'fill' and path[0][0] in ('[]', 'v'):
            if path[0][0] == '[]':
                return self.proj(v.args[0], path[1:])
        if v.op == 'call' and v.args[0] == 'transpose' and path[0][0] == 'v' and path[0][1] in ('col', 'row'):
            o = 'row' if path[0][1] == 'col' else 'col'
            return T('call', 'transpose', self.proj(v.args[1], (('v', o, path[0][2]),)))
        h = self.rule.initial
        if h is not None and v.op in ('call', 'fresh', 'loop'):
            x = h(self, Loc(('havoc', v), path))
            if x is not None:
                return x
        return T('sel', v, path)

    def pathrel(self, p, q):
        """relation of written path p with read path q"""
        for a, b in zip(p, q):
            if a == b:
                continue
            if a[0] == '.' and b[0] == '.':
                return 'disj'
            if a[0] == '[]' and b[0] == '[]':
                d = sub(a[1], b[1]) if isinstance(a[1], T) and isinstance(b[1], T) else None
                if d is not None and isk(d) and kval(d) != 0:
                    return 'disj'
                return 'may'
            if a[0] == 'v' and b[0] == 'v' and a[1] == b[1] and a[1] in ('col', 'row', 'at2') and len(a[2]) == len(b[2]):
                for x, y in zip(a[2], b[2]):
                    d = sub(x, y)
                    if isk(d) and kval(d) != 0:
                        return 'disj'
                return 'may'
            return 'may'
        if len(p) == len(q):
            return 'eq'
        if len(p) < len(q):
            return 'pre'
        return 'may'

    def write(self, st, fr, n, loc, val):
        self.fire('on_write', st, fr, n, loc, val)
        self.rawwrite(st, loc, val)

    def rawwrite(self, st, loc, val):
        if loc.root[0] == 'deref':
            tg = self.targets(loc.root)
            if tg and Loc(loc.root) not in st.env:
                olds = []
                for l in tg[1]:
                    b, idx = self.split_path(Loc(l.root, l.path + loc.path))
                    v = self.read_plain(st, b)
                    olds.append(self.proj(v, idx) if idx else v)
                for i, l in enumerate(tg[1]):
                    self.rawwrite(st, Loc(l.root, l.path + loc.path), mkphi(tg[0], [val if j == i else olds[i] for j in range(len(olds))]))
                return
        base, idx = self.split_path(loc)
        for w in self.wlog:
            w.add(base)
        env = st.env
        if idx:
            old = self.read_plain(st, base)
            nv = self.mkst(old, idx, val)
            self._set(env, base, nv)
        else:
            self._set(env, base, val)

    def mkst(self, old, idx, val):
        # collapse overwritten stores
        if old.op == 'st' and old.args[1] == idx:
            old = old.args[0]
        if self.proj(old, idx) is val and old.op not in ('st',):
            return old
        return T('st', old, idx, val)

    @staticmethod
    def _set(env, loc, val):
        root, n, path = loc.root, len(loc.path), loc.path
        dead = [l for l in env if l.root == root and len(l.path) > n and l.path[:n] == path]
        for l in dead:
            del env[l]
        env[loc] = val

    # ------------------------------------------------------------ facts
    def holds(self, st, t):
        """True / False / None"""
        if isk(t):
            return bool(kval(t))
        f = st.facts
        if t in f:
            return f[t]
        if t.op != 'op':
            return None
        o = t.args[0]
        if o == '!':
            r = self.holds(st, t.args[1])
            return None if r is None else not r
        if o == '&&':
            a = self.holds(st, t.args[1])
            if a is False:
                return False
            b = self.holds(st, t.args[2])
            if b is False:
                return False
            return True if a and b else None
        if o == '||':
            a = self.holds(st, t.args[1])
            if a:
                return True
            b = self.holds(st, t.args[2])
            if b:
                return True
            return False if a is False and b is False else None
        if o in ('==', '<'):
            a, b = t.args[1], t.args[2]
            a2, b2 = self.known(st, a), self.known(st, b)
            if a2 is not a or b2 is not b:
                r = eq(a2, b2) if o == '==' else lt(a2, b2)
                if isk(r):
                    return bool(kval(r))
                if r in f:
                    return f[r]
            if o == '==':
                # a==b excluded by a<b or b<a
                for q in (lt(a, b), lt(b, a)):
                    if f.get(q):
                        return False
                if isk(b):
                    # bounds against constants
                    lo, hi = self.bounds(st, a)
                    c = kval(b)
                    if isinstance(c, (int, float)):
                        if (lo is not None and c < lo) or (hi is not None and c > hi):
                            return False
            else:
                if f.get(lt(b, a)):
                    return False
                if f.get(eq(a, b)):
                    return False
                if isk(b):
                    lo, hi = self.bounds(st, a)
                    c = kval(b)
                    if hi is not None and hi < c:
                        return True
                    if lo is not None and lo >= c:
                        return False
                if isk(a):
                    lo, hi = self.bounds(st, b)
                    c = kval(a)
                    if lo is not None and c < lo:
                        return True
                    if hi is not None and hi <= c:
                        return False
        return None

    def bounds(self, st, t):
        """constant bounds known for t (integers) from facts"""
        lo = hi = None
        if t.op == 'call' and t.args[0] in ('size', 'rows', 'cols'):
            lo = 0
        for f, v in st.facts.items():
            if f.op != 'op':
                continue
            o = f.args[0]
            if o == '==' and v and f.args[1] is t and isk(f.args[2]):
                c = kval(f.args[2])
                lo = c if lo is None else max(lo, c)
                hi = c if hi is None else min(hi, c)
            elif o == '==' and not v and f.args[1] is t and isk(f.args[2]) and kval(f.args[2]) == 0 and lo == 0:
                lo = 1
            elif o == '<':
                if f.args[1] is t and isk(f.args[2]):
                    c = kval(f.args[2])
                    if v:
                        c2 = c - 1 if isinstance(c, int) else c
                        hi = c2 if hi is None else min(hi, c2)
                    else:
                        lo = c if lo is None else max(lo, c)
                elif f.args[2] is t and isk(f.args[1]):
                    c = kval(f.args[1])
                    if v:
                        c2 = c + 1 if isinstance(c, int) else c
                        lo = c2 if lo is None else max(lo, c2)
                    else:
                        hi = c if hi is None else min(hi, c)
        return lo, hi

    def known(self, st, t):
        """substitute constants known by equality facts"""
        m = {}
        for f, v in st.facts.items():
            if v and f.op == 'op' and f.args[0] == '==' and isk(f.args[2]):
                m[f.args[1]] = f.args[2]
        if not m:
            return t
        if t in m:
            return m[t]
        if t.op == 'poly':
            mm = {x: m[x] for mon, c in t.args for x in mon if x in m}
            if mm:
                return subst(t, mm)
        return t

    def assume(self, st, t, val=True):
        """add the fact; returns False when it contradicts the state"""
        h = self.holds(st, t)
        if h is not None:
            return h == val
        if t.op == 'op':
            o = t.args[0]
            if o == '!':
                return self.assume(st, t.args[1], not val)
            if o == '&&' and val:
                return self.assume(st, t.args[1], True) and self.assume(st, t.args[2], True)
            if o == '||' and not val:
                return self.assume(st, t.args[1], False) and self.assume(st, t.args[2], False)
            if o == '&&' and not val:
                a, b = t.args[1], t.args[2]
                if self.holds(st, a):
                    return self.assume(st, b, False)
                if self.holds(st, b):
                    return self.assume(st, a, False)
            if o == '||' and val:
                a, b = t.args[1], t.args[2]
                if self.holds(st, a) is False:
                    return self.assume(st, b, True)
                if self.holds(st, b) is False:
                    return self.assume(st, a, True)
        st.facts[t] = val
        return True

    # ------------------------------------------------------------ joins
    def join(self, sts, site):
        """join states having the same key into one each"""
        if len(sts) <= 1:
            return sts
        if self.split and len(sts) <= self.cap:
            return self.dedup(sts)
        groups = {}
        for s in sts:
            groups.setdefault(self.rule.key(s), []).append(s)
        return [self.join_same(g, site) for g in groups.values()]

    def dedup(self, sts):
        out, seen = [], set()
        for s in sts:
            h = (frozenset(s.env.items()), frozenset(s.facts.items()), frozenset(s.refs.items()), s.aux)
            if h not in seen:
                seen.add(h)
                out.append(s)
        return out

    def gate(self, a, b):
        """a condition that holds in a and fails in b (or None):
        the join of a and b is then a gated selection"""
        for f, v in a.facts.items():
            w = b.facts.get(f)
            if w is None:
                w = self.holds(b, f) if v and f.op == 'op' else None
            if w is not None and w != v:
                return (f, True) if v else (f, False)
        for f, v in b.facts.items():
            if f in a.facts:
                continue
            w = self.holds(a, f) if f.op == 'op' else None
            if w is not None and w != v:
                return (f, w)
        return None

    def gsite(self, a, b, site):
        """(site, swap): gated when a distinguishing condition is known"""
        g = self.gate(a, b)
        if g is None:
            return site, False
        t, pos = g
        if t.op == 'op' and t.args[0] == '!':
            t, pos = t.args[1], not pos
        if not is_bool(t):
            return site, False
        return ('gate', t), not pos

    def join_same(self, sts, site):
        if len(sts) == 1:
            return sts[0]
        if len(sts) > 2:
            r = self.join_same(sts[1:], site)
            return self.join_same([sts[0], r], site)
        gs, swap = self.gsite(sts[0], sts[1], site)
        if swap:
            sts = [sts[1], sts[0]]
        site = gs
        s0 = sts[0]
        env = {}
        keys = set()
        for s in sts:
            keys.update(s.env)
        same = set(s0.env)
        for s in sts[1:]:
            same &= set(s.env)
        for l in sorted(keys, key=lambda x: len(x.path)):
            if l in same:
                vs = [s.env[l] for s in sts]
                v0 = vs[0]
                if all(v is v0 for v in vs):
                    env[l] = v0
                    continue
            vs = [self.read_plain(s, l) for s in sts]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                env[l] = v0
                continue
            env[l] = mkphi(site, vs)
        facts = {}
        for f, v in s0.facts.items():
            if all(s.facts.get(f) == v for s in sts[1:]):
                facts[f] = v
        if site[0] == 'gate':
            # g in the first state only:  gate => g ; in the second only: !gate => g
            for s, o, gt in ((sts[0], sts[1], site[1]), (sts[1], sts[0], not_(site[1]))):
                ex = [(f, v) for f, v in s.facts.items() if f is not site[1] and f not in o.facts and is_bool(f) and f not in facts]
                if 0 < len(ex) <= 2:
                    for f, v in ex:
                        t = and_(gt, not_(f) if v else f)
                        if not isk(t) and t.op == 'op' and t.args[0] == '&&':
                            facts.setdefault(t, False)
        refs = {}
        rk = set()
        for s in sts:
            rk.update(s.refs)
        for r in rk:
            ls = [s.refs.get(r) for s in sts]
            l0 = next((x for x in ls if x is not None), None)
            if all(x is None or x is l0 for x in ls):
                refs[r] = l0
            else:
                refs[r] = Loc(('deref', T('phi', site, *[T('addr', x) if x else T('null') for x in ls])))
        return St(env, refs, facts, s0.aux)

    def join_vals(self, vsts, site):
        """[(val, st)] joined per key"""
        if len(vsts) <= 1:
            return vsts
        if self.split and len(vsts) <= self.cap:
            out, seen = [], set()
            for v, s in vsts:
                h = (v, frozenset(s.env.items()), frozenset(s.facts.items()), frozenset(s.refs.items()), s.aux)
                if h not in seen:
                    seen.add(h)
                    out.append((v, s))
            return out
        groups = {}
        for v, s in vsts:
            kk = self.rule.key(s)
            if isinstance(v, Loc):
                kk = (kk, v)
            elif v is None:
                kk = (kk, 'none')
            groups.setdefault(kk, []).append((v, s))
        out = []
        for g in groups.values():
            v, s = g[-1]
            for v2, s2 in reversed(g[:-1]):
                gs, swap = self.gsite(s2, s, site)
                if isinstance(v, T):
                    v = mkphi(gs, [v, v2] if swap else [v2, v])
                s = self.join_same([s2, s], site)
            out.append((v, s))
        return out

    # ------------------------------------------------------------ variables
    def varloc(self, st, fr, n):
        """location of a Ref node"""
        if 'g' in n:
            return Loc(('glob', n['g'] if '@' in n['g'] else n.get('gq') or n['g']))
        v = n['v']
        f = fr
        while f is not None:
            if v in f.vars:
                l = f.vars[v]
                return st.refs.get((v, f.id), l)
            r = st.refs.get((v, f.id))
            if r is not None:
                return r
            f = f.parent if f.func and (f.func.get('lambda') or f.vars.get('__block')) else None
        # undeclared here (e.g. a captured variable of an unknown closure)
        return Loc(('var', v, n.get('n', '?'), fr.id))

    def declare(self, st, fr, d, val=None, loc=None):
        v = d['v']
        if loc is not None:
            st.refs[(v, fr.id)] = loc
            fr.vars.setdefault(v, loc)
            return loc
        l = Loc(('var', v, d.get('n', '?'), fr.id))
        fr.vars[v] = l
        st.refs.pop((v, fr.id), None)
        if val is not None:
            self.rawwrite(st, l, val)
        return l

    def tmp(self, st, fr, n, val):
        l = Loc(('tmp', fr.id, n['#']))
        self.rawwrite(st, l, val)
        return l

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        """rvalue: [(T, st)]"""
        self.nodes += 1
        if self.nodes > self.budget:
            raise Giveup('node budget')
        kd = n['k']
        m = getattr(self, 'ev_' + kd, None)
        if m is not None:
            return m(n, st, fr)
        if kd in ('Ref', 'Mem', 'Sub'):
            out = []
            for l, s in self.loc(n, st, fr):
                out.append((self.rd(s, fr, n, l), s))
            return out
        return [(T('fresh', fr.id, n['#'], kd), st)]

    def rd(self, s, fr, n, l):
        self.fire('on_read', s, fr, n, l)
        if l.root[0] == 'glob' and not l.path and l not in s.env:
            g = self.P.vars.get(l.root[1])
            nn = l.root[1]
            if nn.startswith('std::placeholders::_'):
                return T('ph', int(nn.split('_')[-1]))
            if g and g.get('const') and 'init' in g:
                i = g['init']
                if i['k'] == 'Lit':
                    return k(i['v'])
        return self.read(s, l)

    def evs(self, ns, st, fr):
        """list of rvalues: [([T], st)]"""
        res = [([], st)]
        for n in ns:
            nr = []
            for vs, s in res:
                for v, s2 in self.ev(n, s, fr):
                    nr.append((vs + [v], s2))
            res = nr
        return res

    def loc(self, n, st, fr):
        """lvalue (temporaries are materialised): [(Loc, st)]"""
        kd = n['k']
        if kd == 'Ref':
            if 'v' not in n and 'g' not in n:
                return [(self.tmp(st, fr, n, T('fresh', fr.id, n['#'], 'ref')), st)]
            return [(self.varloc(st, fr, n), st)]
        if kd == 'Mem':
            out = []
            if n.get('f') is None:
                return [(self.tmp(st, fr, n, T('fresh', fr.id, n['#'], 'mem')), st)]
            if n.get('static'):
                return [(Loc(('glob', n['f'])), st)]
            for b, s in self.objloc(n['b'], n.get('arrow'), st, fr):
                out.append((b.fld(n['f']), s))
            return out
        if kd == 'Sub':
            out = []
            for l, s in self.ptrbase(n['a'], st, fr):
                for i, s2 in self.ev(n['b'], s, fr):
                    out.append((self.ptradd(l, i, True), s2))
            return out
        if kd == 'Un' and n['op'] == '*':
            out = []
            for v, s in self.ev(n['e'], st, fr):
                out.append((self.deref(v), s))
            return out
        if kd == 'This':
            return [(self.tmp(st, fr, n, T('addr', fr.this)), st)]
        if kd in ('Asg', 'CAsg') or (kd == 'Un' and n['op'] in ('++', '--')):
            out = []
            for l, v, s in self.assign(n, st, fr):
                out.append((l, s))
            return out
        if kd == 'Cast':
            if n['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic'):
                return self.loc(n['e'], st, fr)
        if kd == 'Cond':
            out = []
            ts, fs = self.cond(n['c'], st, fr)
            for s in ts:
                out.extend(self.loc(n['a'], s, fr))
            for s in fs:
                out.extend(self.loc(n['b'], s, fr))
            return self.join_vals(out, (n['#'], fr.id))
        if kd == 'Call':
            out = []
            for v, s in self.call(n, st, fr, want='loc'):
                if isinstance(v, Loc):
                    out.append((v, s))
                else:
                    out.append((self.tmp(s, fr, n, v), s))
            return out
        if kd == 'Ctor':
            return self.ctor_loc(n, st, fr)
        if kd == 'Bin' and n['op'] == ',':
            out = []
            for v, s in self.ev(n['a'], st, fr):
                out.extend(self.loc(n['b'], s, fr))
            return out
        out = []
        for v, s in self.ev(n, st, fr):
            out.append((self.tmp(s, fr, n, v), s))
        return out

    def deref(self, v):
        if v.op == 'addr':
            return v.args[0]
        if v.op == 'iter':
            return self.iterloc(v)
        return Loc(('deref', v))

    def iterloc(self, v):
        c, pos = v.args
        if isinstance(c, Loc):
            return c.idx(pos)
        return Loc(('deref', v))

    def objloc(self, n, arrow, st, fr):
        if arrow:
            if n['k'] == 'This':
                return [(fr.this, st)]
            out = []
            for v, s in self.ev(n, st, fr):
                out.append((self.deref(v), s))
            return out
        if n['k'] == 'This':
            return [(fr.this, st)]
        return self.loc(n, st, fr)

    def ptrbase(self, n, st, fr):
        """pointer or array expression being indexed: location of element 0's container"""
        out = []
        t = n.get('t', '')
        if t.endswith(']') and n['k'] in ('Ref', 'Mem'):
            return self.loc(n, st, fr)
        for v, s in self.ev(n, st, fr):
            if v.op == 'addr':
                out.append((v.args[0], s))
            else:
                out.append((Loc(('deref', v)), s))
        return out

    def ptradd(self, l, i, index):
        if l.path and l.path[-1][0] == '[]':
            return Loc(l.root, l.path[:-1] + (('[]', add(l.path[-1][1], i)),))
        return l.idx(i)

    # literals
    def ev_Lit(self, n, st, fr):
        v = n['v']
        if isinstance(v, str):
            try:
                v = float(v)
            except ValueError:
                return [(T('lit', v), st)]
        return [(k(v), st)]

    def ev_Enum(self, n, st, fr):
        return [(k(n['v']), st)]

    def ev_Str(self, n, st, fr):
        return [(T('str', n.get('v', n.get('s', ''))), st)]

    def ev_Null(self, n, st, fr):
        return [(T('null'), st)]

    def ev_This(self, n, st, fr):
        return [(T('addr', fr.this), st)]

    def ev_ZeroInit(self, n, st, fr):
        t = n.get('t', '')
        if t in ('int', 'double', 'bool', 'unsigned int', 'long', 'float', 'size_t', 'unsigned long'):
            return [(ZERO, st)]
        return [(T('call', 'zeroinit', t), st)]

    def ev_Fn(self, n, st, fr):
        if n.get('b'):
            return [(T('fn', n['f']), st)]
        return [(T('fn', n['f']), st)]

    def ev_Lambda(self, n, st, fr):
        caps = []
        sts = [(caps, st)]
        for c in n.get('caps', []):
            nr = []
            for cs, s in sts:
                if c.get('this'):
                    nr.append((cs + [('this', fr.this)], s))
                elif c.get('byref'):
                    nr.append((cs + [('ref', c['v'], self.varloc(s, fr, c))], s))
                elif c.get('init') is not None:
                    for v, s2 in self.ev(c['init'], s, fr):
                        nr.append((cs + [('val', c['v'], v)], s2))
                else:
                    nr.append((cs + [('val', c['v'], self.read(s, self.varloc(s, fr, c)))], s))
            sts = nr
        out = []
        for cs, s in sts:
            out.append((T('lam', n['f'], tuple(cs), fr.this), s))
        return out

    def ev_InitList(self, n, st, fr):
        a = n.get('args', n.get('e', []))
        if isinstance(a, dict):
            a = [a]
        out = []
        if len(a) == 1 and a[0]['k'] == 'InitList':
            return self.ev(a[0], st, fr)
        for vs, s in self.evs(a, st, fr):
            b = T('call', 'list', n.get('t', ''))
            for i, v in enumerate(vs):
                b = T('st', b, (('[]', k(i)),), v)
            out.append((b, s))
        return out

    def ev_Throw(self, n, st, fr):
        self.fire('on_throw', st, fr, n)
        return []

    def ev_New(self, n, st, fr):
        out = []
        l = Loc(('heap', fr.id, n['#']))
        init = n.get('init')
        if init is not None and init['k'] == 'Ctor':
            for s in self.construct(init, st, fr, l):
                out.append((T('addr', l), s))
            return out
        return [(T('addr', l), st)]

    def ev_Delete(self, n, st, fr):
        out = []
        for v, s in self.ev(n['e'], st, fr):
            self.fire('on_ext', s, fr, n, 'delete', None, None, [('v', v)])
            out.append((ZERO, s))
        return out

    def ev_Un(self, n, st, fr):
        op = n['op']
        if op == '&':
            e = n['e']
            if e['k'] == 'Fn':
                return self.ev(e, st, fr)
            return [(T('addr', l), s) for l, s in self.loc(e, st, fr)]
        if op == '*':
            return [(self.rd(s, fr, n, l), s) for l, s in self.loc(n, st, fr)]
        if op in ('++', '--'):
            return [(v, s) for l, v, s in self.assign(n, st, fr)]
        if op in ('post++', 'post--'):
            out = []
            for l, s in self.loc(n['e'], st, fr):
                old = self.read(s, l)
                nv = self.step(old, 1 if op == 'post++' else -1)
                self.write(s, fr, n, l, nv)
                out.append((old, s))
            return out
        out = []
        for v, s in self.ev(n['e'], st, fr):
            if op == '-':
                out.append((neg(v), s))
            elif op == '+':
                out.append((v, s))
            elif op == '!':
                out.append((not_(v), s))
            else:
                out.append((T('op', op, v), s))
        return out

    def step(self, v, d):
        if v.op == 'iter':
            return T('iter', v.args[0], add(v.args[1], k(d)))
        if v.op == 'addr':
            return T('addr', self.ptradd(v.args[0], k(d), False))
        return add(v, k(d))

    def arith(self, op, a, b, t=''):
        if a.op == 'iter' and op in '+-':
            if b.op == 'iter':
                return sub(a.args[1], b.args[1])
            return T('iter', a.args[0], add(a.args[1], b if op == '+' else neg(b)))
        if a.op == 'addr' and op in '+-' and b.op != 'addr':
            return T('addr', self.ptradd(a.args[0], b if op == '+' else neg(b), False))
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if t in ('double', 'float', 'const double', 'long double'):
                return div(a, b)
            if isk(a) and isk(b) and kval(b) != 0 and isinstance(kval(a), int) and isinstance(kval(b), int):
                q = abs(kval(a)) // abs(kval(b))
                return k(q if (kval(a) < 0) == (kval(b) < 0) else -q)
            return T('op', 'idiv', a, b)
        if op == '%':
            if isk(a) and isk(b) and kval(b) != 0:
                return k(kval(a) % kval(b))
            return T('op', '%', a, b)
        return T('op', op, a, b)

    def ev_Bin(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||'):
            if self.pure(n['b']):
                out = []
                for a, s in self.ev(n['a'], st, fr):
                    for b, s2 in self.ev(n['b'], s, fr):
                        ta, tb = truth_term(a), truth_term(b)
                        out.append(((and_ if op == '&&' else or_)(ta, tb), s2))
                return out
            ts, fs = self.cond(n, st, fr)
            out = [(ONE, s) for s in ts] + [(ZERO, s) for s in fs]
            return self.join_vals(out, (n['#'], fr.id))
        if op == ',':
            out = []
            for v, s in self.ev(n['a'], st, fr):
                out.extend(self.ev(n['b'], s, fr))
            return out
        out = []
        for (a, b), s in self.evs([n['a'], n['b']], st, fr):
            if op in ('<', '>', '<=', '>=', '==', '!='):
                out.append((self.compare(op, a, b, s, n), s))
            else:
                out.append((self.arith(op, a, b, n.get('t', '')), s))
        return out

    def compare(self, op, a, b, s=None, n=None):
        if a.op == 'iter' and b.op == 'iter':
            if a.args[0] is b.args[0]:
                return cmp(op, a.args[1], b.args[1])
            return T('op', '==', a, b) if op == '==' else T('op', '!', T('op', '==', a, b))
        if a.op in ('null', 'addr', 'fn', 'lam', 'bind') or b.op in ('null', 'addr', 'fn', 'lam', 'bind'):
            if a.op == 'null':
                a, b = b, a
            if b.op == 'null':
                if a.op == 'null':
                    r = ONE
                elif a.op in ('addr', 'fn', 'lam', 'bind'):
                    r = ZERO
                else:
                    r = truth_term(a, False)
                return r if op == '==' else not_(r)
        if op in ('==', '!=') and n is not None:
            # bool compared with a bool constant
            for x, y, nx in ((a, b, n.get('a')), (b, a, n.get('b'))):
                if isk(y) and nx is not None and nx.get('t', '').replace('const ', '') == 'bool':
                    r = truth_term(x, bool(kval(y)) == (op == '=='))
                    return r
        if op in ('==', '!=') and n is not None and n.get('a', {}).get('t', '').replace('const ', '').strip() == 'double':
            # x == x + e: does e vanish next to x in floating point
            for x, y in ((a, b), (b, a)):
                if x.op == 'init' and y.op == 'poly' and dict(y.args).get((x,)) == 1:
                    e = sub(y, x)
                    if not isk(e) and not any(z is x for z in subterms(e)):
                        r = lt(T('call', 'fabs', e), mul(T('call', 'fabs', x), T('call', 'limits:vanish', '')))
                        return r if op == '==' else not_(r)
        return cmp(op, a, b)

    def pure(self, n):
        """no write, no call into the repository's non-const code"""
        if isinstance(n, list):
            return all(self.pure(x) for x in n)
        if not isinstance(n, dict):
            return True
        kd = n.get('k')
        if kd in ('Asg', 'CAsg', 'New', 'Delete', 'Throw', 'Lambda'):
            return False
        if kd == 'Un' and ('++' in n['op'] or '--' in n['op']):
            return False
        if kd == 'Call':
            f = self.P.funcs.get(n.get('f'))
            if f is None:
                return False
            if 'body' in f and not f.get('const'):
                return False
            if f['name'] == 'operator()' and 'std::function' in f['bare']:
                return False
            if 'body' not in f and f.get('cls') and not f.get('const') and not f.get('static') and f['name'] not in (
                    'begin', 'end', 'at', 'operator[]', 'operator()', 'find', 'col', 'row', 'data', 'front', 'back', 'transpose'):
                return False
        return all(self.pure(v) for kk, v in n.items() if isinstance(v, (dict, list)))

    def ev_Cond(self, n, st, fr):
        ts, fs = self.cond(n['c'], st, fr)
        out = []
        for s in ts:
            out.extend(self.ev(n['a'], s, fr))
        for s in fs:
            out.extend(self.ev(n['b'], s, fr))
        return self.join_vals(out, (n['#'], fr.id))

    def ev_Asg(self, n, st, fr):
        return [(v, s) for l, v, s in self.assign(n, st, fr)]

    ev_CAsg = ev_Asg

    def assign(self, n, st, fr):
        """[(loc, value, st)]"""
        out = []
        if n['k'] == 'Asg':
            for v, s in self.ev(n['b'], st, fr):
                for l, s2 in self.loc(n['a'], s, fr):
                    self.write(s2, fr, n, l, v)
                    out.append((l, v, s2))
        elif n['k'] == 'CAsg':
            for v, s in self.ev(n['b'], st, fr):
                for l, s2 in self.loc(n['a'], s, fr):
                    old = self.read(s2, l)
                    nv = self.arith(n['op'].rstrip('='), old, v, n['a'].get('t', ''))
                    self.write(s2, fr, n, l, nv)
                    out.append((l, nv, s2))
        else:
            for l, s in self.loc(n['e'], st, fr):
                nv = self.step(self.read(s, l), 1 if n['op'] == '++' else -1)
                self.write(s, fr, n, l, nv)
                out.append((l, nv, s))
        return out

    def ev_Cast(self, n, st, fr):
        ck = n['ck']
        out = []
        for v, s in self.ev(n['e'], st, fr):
            if ck == 'FloatingToIntegral':
                if isk(v):
                    v = k(int(kval(v)))
                elif not (v.op == 'call' and v.args[0] in ('floor', 'ceil', 'int', 'round')):
                    v = T('call', 'int', v)
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                v = truth_term(v)
            elif n.get('t') in ('int', 'long', 'unsigned int', 'unsigned long') and n['e'].get('t') in ('double', 'float') and ck == 'NoOp':
                v = T('call', 'int', v) if not isk(v) else k(int(kval(v)))
            out.append((v, s))
        return out

    def ev_Other(self, n, st, fr):
        return [(T('fresh', fr.id, n['#'], n.get('cls', 'other')), st)]

    def ev_Call(self, n, st, fr):
        out = []
        for v, s in self.call(n, st, fr, want='val'):
            if isinstance(v, Loc):
                v = self.rd(s, fr, n, v)
            out.append((v, s))
        return out

    def ev_Ctor(self, n, st, fr):
        out = []
        for l, s in self.ctor_loc(n, st, fr):
            v = self.read(s, l)
            if l.root[0] == 'tmp' and l.root[2] == n['#']:
                self._drop(s, l.root)
            out.append((v, s))
        return out

    def _drop(self, s, root):
        for l in [l for l in s.env if l.root == root]:
            del s.env[l]

    # ------------------------------------------------------------ conditions
    def cond(self, n, st, fr):
        """(true states, false states)"""
        kd = n['k']
        if kd == 'Bin' and n['op'] in ('&&', '||'):
            st0 = st.copy() if self.pure(n) else None
            ts, fs = self.cond(n['a'], st, fr)
            if n['op'] == '&&':
                T2, F2 = [], list(fs)
                for s in ts:
                    a, b = self.cond(n['b'], s, fr)
                    T2 += a
                    F2 += b
                return T2, self.compound(F2, n, fr, st0, False)
            T2, F2 = list(ts), []
            for s in fs:
                a, b = self.cond(n['b'], s, fr)
                T2 += a
                F2 += b
            return self.compound(T2, n, fr, st0, True), F2
        if kd == 'Un' and n['op'] == '!':
            a, b = self.cond(n['e'], st, fr)
            return b, a
        ts, fs = [], []
        for v, s in self.ev(n, st, fr):
            t = truth_term(v)
            self.fire('on_branch', s, fr, n, t)
            h = self.holds(s, t)
            if h is True:
                ts.append(s)
            elif h is False:
                fs.append(s)
            else:
                s2 = s.copy()
                if self.assume(s, t, True):
                    ts.append(s)
                if self.assume(s2, t, False):
                    fs.append(s2)
        return ts, fs

    def compound(self, sts, n, fr, st0, val):
        out = self.join(sts, ('f', n['#'], fr.id))
        if len(sts) > 1 and st0 is not None:
            r = self.ev(n, st0, fr)
            if len(r) == 1:
                t = truth_term(r[0][0])
                if not isk(t):
                    v = val
                    while t.op == 'op' and t.args[0] == '!':
                        t, v = t.args[1], not v
                    for s in out:
                        s.facts.setdefault(t, v)
        return out

    # ------------------------------------------------------------ calls
    def args(self, n, f, st, fr):
        """evaluate call arguments against the callee's parameter kinds:
        [([('v',T)|('l',Loc)], st)]"""
        ps = f['params'] if f else []
        res = [([], st)]
        for i, a in enumerate(n.get('args', [])):
            byref = i < len(ps) and ps[i]['k'] in ('ref', 'cref', 'rref')
            nr = []
            for vs, s in res:
                if byref:
                    for l, s2 in self.loc(a, s, fr):
                        nr.append((vs + [('l', l)], s2))
                else:
                    for v, s2 in self.ev(a, s, fr):
                        nr.append((vs + [('v', v)], s2))
            res = nr
        return res

    def aval(self, s, a):
        if a[0] != 'v' and a[1].root[0] == 'glob' and str(a[1].root[1]).startswith('std::placeholders::_'):
            return T('ph', int(a[1].root[1].split('_')[-1]))
        return a[1] if a[0] == 'v' else self.read(s, a[1])

    def call(self, n, st, fr, want='val'):
        """[(T|Loc, st)]"""
        fid = n.get('f')
        if fid is None:
            # call through an expression (function pointer / member pointer)
            out = []
            fe = n.get('fe')
            for fv, s in (self.ev(fe, st, fr) if fe else [(T('fresh', fr.id, n['#'], 'fn'), st)]):
                for as_, s2 in self.args(n, None, s, fr):
                    out.extend(self.apply(fv, as_, n, s2, fr, None))
            return out
        f = self.P.funcs.get(fid)
        if f is None:
            out = []
            for as_, s in self.args(n, None, st, fr):
                out.append((T('call', fid, *[self.aval(s, a) for a in as_]), s))
            return out
        # object
        if 'o' in n and n['o'] is not None:
            objs = self.objloc(n['o'], n.get('arrow'), st, fr)
        else:
            objs = [(None, st)]
        out = []
        for o, s in objs:
            if f['name'] == 'operator()' and (f['bare'].startswith('std::function') or o is not None and self.read_plain(s, o).op == 'lam'):
                fv = self.read(s, o)
                for as_, s2 in self.args(n, f, s, fr):
                    out.extend(self.apply(fv, as_, n, s2, fr, o))
                continue
            g = f
            if n.get('virt') and o is not None:
                cls = self.dynclass(o)
                if cls:
                    gid = self.P.overriders(fid, cls)
                    g = self.P.funcs.get(gid, f)
            for as_, s2 in self.args(n, g, s, fr):
                out.extend(self.invoke(g, o, as_, n, s2, fr, want))
        return out

    def dynclass(self, o):
        if o.path == ():
            return self.dyncls.get(o.root)
        return None

    def invoke(self, f, o, as_, n, s, fr, want='val'):
        """call function f on object o with evaluated arguments"""
        r = self.fire('on_call', s, fr, n, f, o, as_)
        if r is not None:
            return r
        if 'body' in f and not self.rule.opaque(f):
            if (f.get('implicit') or f.get('defaulted')) and f.get('assignop') and o is not None and as_:
                self.write(s, fr, n, o, self.aval(s, as_[0]))
                return [(o, s)]
            if f.get('dtor'):
                return [(ZERO, s)]
            depth = 0
            p = fr
            while p:
                if p.fid == f['id']:
                    depth += 1
                p = p.parent
            if depth < 2 and fr.depth < self.rule.inline_limit:
                return self.inline(f, o, as_, n, s, fr)
            self.imprecise.append(('recursion', f['bare'], self.where(fr, n)))
            return self.havoc_call(f, o, as_, n, s, fr)
        return self.external(f, o, as_, n, s, fr, want)

    def havoc_call(self, f, o, as_, n, s, fr):
        key = T('fresh', fr.id, n['#'], f['bare'])
        if o is not None and not f.get('const'):
            self.fire('on_write', s, fr, n, o, key)
            self.rawwrite(s, o, T('call', 'upd', key, self.read(s, o)))
        for i, a in enumerate(as_):
            if a[0] == 'l' and i < len(f['params']) and f['params'][i]['k'] == 'ref':
                self.write(s, fr, n, a[1], T('call', 'out', key, k(i)))
        v = T('call', 'ret', key)
        if f.get('retk') in ('ref', 'cref') and o is not None:
            return [(Loc(('deref', v)), s)]
        return [(v, s)]

    def bind_params(self, f, as_, s, nf):
        ps = f['body'].get('params') or f['params']
        for i, p in enumerate(ps):
            if i >= len(as_):
                break
            a = as_[i]
            if p['k'] in ('ref', 'cref', 'rref'):
                l = a[1] if a[0] == 'l' else None
                if l is None:
                    l = Loc(('tmp', nf.id, 'arg%d' % i))
                    self.rawwrite(s, l, a[1])
                nf.vars[p['v']] = l
                s.refs[(p['v'], nf.id)] = l
            else:
                l = Loc(('var', p['v'], p.get('n', '?'), nf.id))
                nf.vars[p['v']] = l
                self.rawwrite(s, l, self.aval(s, a))

    def inline(self, f, o, as_, n, s, fr, this=None, prep=None):
        nf = Frame(f, fr, o if o is not None else this, n)
        self.inlined[f['bare']] = self.inlined.get(f['bare'], 0) + 1
        self.visited.add(f['id'])
        self.bind_params(f, as_, s, nf)
        if prep:
            prep(s, nf)
        return self.run_body(f, s, nf, n)

    def run_body(self, f, s, nf, n, leave=True):
        nf.retref = f.get('retk') in ('ref', 'cref')
        b = f['body'].get('s')
        if b is None:
            b = {'k': 'Nop', '#': -1}
        elif isinstance(b, list):
            b = {'k': 'Block', 's': b, '#': -1}
        o = self.exec(b, s, nf)
        rets = [(v, st) for v, st in o.get('return', [])]
        rets += [(None, st) for st in o.get(CONT, [])]
        rets = self.join_vals(rets, ('ret', n['#'] if n else 0, nf.id))
        out = []
        for v, st in rets:
            if leave:
                self.leave(st, nf, v)
            out.append((ZERO if v is None else v, st))
        return out

    def leave(self, st, nf, v):
        keep = set()
        if isinstance(v, Loc):
            keep.add(v.root)
        if isinstance(v, T):
            for x in subterms(v):
                if isinstance(x, Loc):
                    keep.add(x.root)
        fid = nf.id
        dead = [l for l in st.env if l.root not in keep and ((l.root[0] == 'var' and l.root[3] is fid) or (l.root[0] == 'tmp' and l.root[1] is fid))]
        for l in dead:
            del st.env[l]
        for r in [r for r in st.refs if r[1] is fid]:
            del st.refs[r]

    def apply(self, fv, as_, n, s, fr, oloc):
        """apply a function value"""
        if fv.op == 'lam':
            f = self.P.funcs.get(fv.args[0])
            if f and 'body' in f:
                caps, this = fv.args[1], fv.args[2]

                def prep(st, nf):
                    for c in caps:
                        if c[0] == 'ref':
                            nf.vars[c[1]] = c[2]
                            st.refs[(c[1], nf.id)] = c[2]
                        elif c[0] == 'val':
                            l = Loc(('var', c[1], 'cap', nf.id))
                            nf.vars[c[1]] = l
                            self.rawwrite(st, l, c[2])
                depth, p = 0, fr
                while p:
                    if p.fid == f['id']:
                        depth += 1
                    p = p.parent
                if depth < 2:
                    return self.inline(f, None, as_, n, s, fr, this=this, prep=prep)
        if fv.op == 'fn':
            f = self.P.funcs.get(fv.args[0])
            if f and f.get('cls') and not f.get('static') and as_:
                # member pointer applied to an object
                a0 = as_[0]
                v = self.aval(s, a0)
                o = v.args[0] if v.op == 'addr' else (a0[1] if a0[0] == 'l' else Loc(('deref', v)))
                if f.get('virtual') and self.dynclass(o):
                    f = self.P.funcs.get(self.P.overriders(f['id'], self.dynclass(o)), f)
                return self.invoke(f, o, as_[1:], n, s, fr)
            if f:
                return self.invoke(f, None, as_, n, s, fr)
        if fv.op == 'bind':
            fn, bargs = fv.args[0], fv.args[1]
            full = []
            for b in bargs:
                if b.op == 'ph':
                    i = b.args[0] - 1
                    full.append(as_[i] if i < len(as_) else ('v', T('fresh', fr.id, n['#'], 'ph')))
                else:
                    full.append(('v', b))
            return self.apply(fn, full, n, s, fr, None)
        if fv.op == 'phi' and all(x.op in ('lam', 'fn', 'bind') for x in fv.args[1:]) and len(fv.args) <= 5:
            out = []
            for x in fv.args[1:]:
                out.extend(self.apply(x, as_, n, s.copy(), fr, oloc))
            return self.join_vals(out, ('apply', n['#'], fr.id))
        r = self.fire('on_fcall', s, fr, n, fv, as_, oloc)
        if r is not None:
            return r
        vals = tuple(self.aval(s, a) for a in as_)
        for i, a in enumerate(as_):
            if a[0] == 'v' and a[1].op == 'addr':
                vals = vals[:i] + (T('pt', self.read(s, a[1].args[0])),) + vals[i + 1:]
        return [(T('call', 'fn', fv, *vals), s)]

    # ------------------------------------------------------------ constructors
    def ctor_loc(self, n, st, fr):
        l = Loc(('tmp', fr.id, n['#']))
        # elide copies of temporaries
        return [(l, s) for s in self.construct(n, st, fr, l)]

    def construct(self, n, st, fr, loc):
        """run constructor node n on location loc: [st]"""
        f = self.P.funcs.get(n.get('f')) if n.get('f') else None
        out = []
        if f is not None and 'body' in f and not self.rule.opaque(f):
            for as_, s in self.args(n, f, st, fr):
                r = self.fire('on_ctor', s, fr, n, f, loc, as_)
                if r is not None:
                    out.extend(r)
                    continue
                out.extend(self.construct_args(f, as_, n, s, fr, loc))
            return out
        for as_, s in self.args(n, f, st, fr):
            r = self.fire('on_ctor', s, fr, n, f, loc, as_)
            if r is not None:
                out.extend(r)
                continue
            v = self.ext_ctor(n, f, as_, s, fr)
            self.write(s, fr, n, loc, v)
            out.append(s)
        return out

    def construct_args(self, f, as_, n, s, fr, loc):
        if (f.get('copyctor') or f.get('movector')) and (f.get('implicit') or f.get('defaulted')):
            self.write(s, fr, n, loc, self.aval(s, as_[0]))
            return [s]
        nf = Frame(f, fr, loc, n)
        if nf.depth > self.rule.inline_limit:
            self.write(s, fr, n, loc, T('fresh', fr.id, n['#'], f['bare']))
            return [s]
        self.inlined[f['bare']] = self.inlined.get(f['bare'], 0) + 1
        self.visited.add(f['id'])
        if loc.root[0] in ('tmp', 'heap', 'var') and f.get('cls') and not loc.path:
            self.dyncls.setdefault(loc.root, f['cls'])
        # fresh object: its members are indeterminate until initialised
        if not (fr and fr.func and fr.func.get('ctor') and fr.this is loc):
            self._set(s.env, loc, T('uninit', f.get('cls', '')))
            for w in self.wlog:
                w.add(loc)
        self.bind_params(f, as_, s, nf)
        sts = [s]
        for i in f['body'].get('inits', []):
            nx = []
            for s1 in sts:
                e = i.get('e')
                if 'field' in i:
                    fl = loc.fld(i['field'])
                    if e is None:
                        nx.append(s1)
                    elif e['k'] == 'Ctor':
                        nx.extend(self.construct(e, s1, nf, fl))
                    else:
                        for v, s2 in self.ev(e, s1, nf):
                            self.write(s2, nf, e, fl, v)
                            nx.append(s2)
                else:
                    if e is not None and e['k'] == 'Ctor':
                        nx.extend(self.construct(e, s1, nf, loc))
                    elif e is not None:
                        nx.extend(s2 for v, s2 in self.ev(e, s1, nf))
                    else:
                        nx.append(s1)
            sts = self.join(nx, ('init', n['#'], nf.id))
        out = []
        for s1 in sts:
            out.extend(x for v, x in self.run_body(f, s1, nf, n))
        return self.join(out, ('ctor', n['#'], nf.id))

    def ext_ctor(self, n, f, as_, s, fr):
        t = n.get('t', '')
        vals = [self.aval(s, a) for a in as_]
        bare = f['bare'] if f else t
        if f is not None and (f.get('copyctor') or f.get('movector')) and len(vals) == 1:
            return vals[0]
        if bare.startswith('std::function'):
            if len(vals) == 0:
                return T('null')
            if len(vals) == 1:
                return vals[0]
        if bare.startswith('Eigen::Matrix'):
            if len(vals) == 1:
                at = n['args'][0].get('t', '')
                if self.isint(at):
                    return T('call', 'mat', vals[0])
                if self.rowtype(at) and ', 1>' in bare + t:
                    return T('call', 'asvec', vals[0])
                return vals[0]
            if len(vals) == 0:
                return T('call', 'mat', ZERO)
            return T('call', 'mat', *vals)
        if bare.startswith('Eigen::Map') and len(vals) in (2, 3) and ', 1>' in bare + t and ', 1, -1>' not in bare + t:
            p = vals[0]
            if p.op == 'addr' and isinstance(p.args[0], Loc):
                l = p.args[0]
                if l.path and l.path[-1][0] == '[]' and isk(l.path[-1][1]) and kval(l.path[-1][1]) == 0:
                    l = Loc(l.root, l.path[:-1])
                return T('call', 'head', self.read(s, l), vals[1])
            return T('call', 'ptrvec', p, vals[1])
        if bare.startswith('std::pair'):
            if len(vals) == 2:
                return T('rec', T('call', 'pair'), (((('.', 'std::pair::first'),), vals[0]), ((('.', 'std::pair::second'),), vals[1])))
            if len(vals) == 1:
                return vals[0]
        if 'iterator' in bare and len(vals) == 1:
            return vals[0]
        if 'iterator' in bare and not vals:
            return T('call', 'iter0')
        if bare.startswith('std::basic_string') and len(vals) >= 1:
            if vals[0].op == 'str' or len(vals) == 1:
                return vals[0]
        if bare.startswith('std::vector') or bare.startswith('std::map') or bare.startswith('std::unordered'):
            nm = bare.split('::')[1]
            if not [a for a in n.get('args', []) if 'allocator' not in a.get('t', '')]:
                return T('call', 'empty_' + nm)
            vv = [v for v, a in zip(vals, n.get('args', [])) if 'allocator' not in a.get('t', '') and 'std::less' not in a.get('t', '')]
            return T('call', 'new_' + nm, *vv)
        if f is None and len(vals) == 0:
            return T('call', 'default', t)
        return T('call', 'ctor:' + short(bare), *vals)

    @staticmethod
    def rowtype(t):
        t = t.replace('const ', '').strip()
        return t.startswith('Eigen::Product<Eigen::Transpose<') or t.startswith('Eigen::Transpose<') or t.startswith('Product<Eigen::Transpose<') or t.startswith('Product<Transpose<')

    @staticmethod
    def isint(t):
        t = t.replace('const ', '').replace('&', '').strip()
        return t in ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'Eigen::Index', 'short', 'long long')

    # ------------------------------------------------------------ externals
    META = ('size', 'cols', 'rows', 'empty', 'begin', 'end', 'cbegin', 'cend', 'data', 'rbegin', 'rend', 'at', 'operator[]', 'operator()', 'col', 'row', 'back', 'front')

    def external(self, f, o, as_, n, s, fr, want):
        if self.rlog is not None and f['name'] in self.META and f.get('cls') and not (f['name'] == 'operator()' and not f['bare'].startswith('Eigen')):
            old, self.rlog = self.rlog, None
            try:
                return self._external(f, o, as_, n, s, fr, want)
            finally:
                self.rlog = old
        return self._external(f, o, as_, n, s, fr, want)

    def _external(self, f, o, as_, n, s, fr, want):
        bare, name = f['bare'], f['name']
        r = self.fire('on_ext', s, fr, n, name, f, o, as_)
        if r is not None:
            return r
        V = lambda i: self.aval(s, as_[i])
        ns = bare.split('::')[0]
        nargs = len(as_)
        iscall = o is not None
        # ---- standard containers and iterators
        if name in ('at', 'operator[]') and iscall and nargs == 1:
            if '_map' in bare or 'std::map' in bare:
                return [(o.idx(T('key', V(0))), s)]
            return [(o.idx(V(0)), s)]
        if name == 'operator()' and iscall and ns == 'Eigen':
            if nargs == 1:
                return [(o.idx(V(0)), s)]
            if isk(V(1)) and kval(V(1)) == 0 and ', 1>' in (n['o'].get('t', '') if n.get('o') else ''):
                return [(o.idx(V(0)), s)]
            return [(o.view('at2', (V(0), V(1))), s)]
        if name in ('front',) and iscall:
            return [(o.idx(ZERO), s)]
        if name == 'back' and iscall:
            return [(o.idx(sub(self.size(self.read(s, o)), ONE)), s)]
        if name == 'seed' and iscall and nargs == 1 and ns == 'std':
            self.write(s, fr, n, o, T('call', 'seeded', V(0)))
            return [(ZERO, s)]
        if name in ('begin', 'cbegin') and iscall:
            return [(T('iter', o, ZERO), s)]
        if name in ('end', 'cend') and iscall:
            return [(T('iter', o, self.size(self.read(s, o))), s)]
        if name == 'find' and iscall and nargs == 1 and ns == 'std' and 'string' not in bare:
            return [(T('iter', o, T('findpos', self.read(s, o), V(0))), s)]
        if name in ('operator*', 'operator->') and iscall and 'iterator' in bare and nargs == 0:
            v = self.read(s, o)
            l = self.deref(v)
            return [(l, s)] if name == 'operator*' else [(T('addr', l), s)]
        if name in ('operator++', 'operator--') and iscall and 'iterator' in bare:
            v = self.read(s, o)
            nv = self.step(v, 1 if name == 'operator++' else -1)
            self.write(s, fr, n, o, nv)
            return [(v if nargs == 1 else o, s)]
        if name in ('operator+', 'operator-') and iscall and 'iterator' in bare and nargs == 1:
            return [(self.arith(name[-1], self.read(s, o), V(0)), s)]
        if name in ('operator+', 'operator-') and not iscall and nargs == 2 and V(0).op == 'iter':
            return [(self.arith(name[-1], V(0), V(1)), s)]
        if name in ('operator+=', 'operator-=') and iscall and 'iterator' in bare and nargs == 1:
            self.write(s, fr, n, o, self.arith(name[-2], self.read(s, o), V(0)))
            return [(o, s)]
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            op = name[8:]
            a, b = (self.read(s, o), V(0)) if iscall else (V(0), V(1))
            return [(self.compare(op, a, b), s)]
        if name == 'operator!' and iscall:
            return [(not_(self.read(s, o)), s)]
        if name == 'operator bool' and iscall:
            return [(truth_term(self.read(s, o)), s)]
        if name in ('size', 'rows', 'cols', 'length') and iscall and nargs == 0:
            if name == 'length':
                name = 'size'
            return [(self.size(self.read(s, o), name), s)]
        if name == 'empty' and iscall and nargs == 0:
            return [(eq(self.size(self.read(s, o)), ZERO), s)]
        if name == 'data' and iscall or name == 'c_str' and iscall:
            return [(T('addr', o), s)]
        if name == 'clear' and iscall:
            self.write(s, fr, n, o, T('call', 'empty_' + bare.split('::')[1]))
            return [(ZERO, s)]
        if name in ('push_back', 'emplace_back') and iscall:
            if name == 'emplace_back':
                v = self.emplace(n, o, as_, s, fr)
                if v is None:
                    v = T('call', 'emplace', *[self.aval(s, a) for a in as_])
            else:
                v = V(0)
            self.write(s, fr, n, o, T('call', 'push', self.read(s, o), v))
            return [(o.idx(T('last', o)) if name == 'emplace_back' else ZERO, s)]
        if name == 'swap' and nargs == 2 and not iscall and as_[0][0] == 'l' and as_[1][0] == 'l':
            a, b = V(0), V(1)
            self.write(s, fr, n, as_[0][1], b)
            self.write(s, fr, n, as_[1][1], a)
            return [(ZERO, s)]
        if name in ('move', 'forward') and nargs == 1 and ns == 'std':
            return [(as_[0][1], s)]
        # ---- functional
        if name == 'bind' and ns == 'std':
            vals = [self.aval(s, a) for a in as_]
            return [(T('bind', vals[0], tuple(vals[1:])), s)]
        if name == 'operator=' and iscall and nargs == 1:
            self.write(s, fr, n, o, V(0))
            return [(o, s)]
        # ---- numeric
        if not iscall or f.get('static'):
            if name in ('sqrt', 'fabs', 'abs', 'exp', 'log', 'pow', 'floor', 'ceil', 'round', 'cos', 'sin', 'acos', 'isnan', 'isinf', 'isfinite'):
                vals = [self.aval(s, a) for a in as_]
                if name == 'abs':
                    name = 'fabs'
                if all(isk(v) for v in vals):
                    import math
                    try:
                        if name in ('sqrt', 'fabs', 'exp', 'log', 'pow', 'floor', 'ceil'):
                            return [(k(getattr(math, name)(*[kval(v) for v in vals])), s)]
                    except (ValueError, OverflowError):
                        pass
                if name == 'pow' and isk(vals[1]) and kval(vals[1]) == 2:
                    return [(mul(vals[0], vals[0]), s)]
                return [(T('call', name, *vals), s)]
            if name in ('min', 'max') and nargs == 2:
                a, b = sorted((V(0), V(1)))
                if isk(a) and isk(b):
                    return [(k((min if name == 'min' else max)(kval(a), kval(b))), s)]
                return [(T('call', name, a, b), s)]
            if bare.startswith('std::numeric_limits'):
                return [(T('call', 'limits:' + name, f.get('cls', '')), s)]
            if name in ('sort', 'stable_sort', 'nth_element', 'partial_sort', 'min_element', 'max_element', 'accumulate', 'copy', 'copy_n',
                        'for_each', 'reverse', 'transform', 'find_if', 'fill', 'iota', 'any_of', 'all_of', 'none_of', 'count_if', 'is_sorted'):
                return self.algorithm(name, f, as_, n, s, fr)
            if name in ('setprecision',):
                return [(T('call', name), s)]
            if name in ('fabs',):
                return [(T('call', name, V(0)), s)]
        # ---- Eigen
        if ns == 'Eigen':
            r = self.eigen(name, f, o, as_, n, s, fr)
            if r is not None:
                return r
        # ---- streams
        if name == 'operator<<':
            st0 = o if iscall else (as_[0][1] if as_ and as_[0][0] == 'l' else None)
            if isinstance(st0, Loc):
                return [(st0, s)]
            return [(T('call', '<<'), s)]
        if name in ('now',) and 'chrono' in bare:
            return [(T('fresh', fr.id, n['#'], 'now'), s)]
        if bare in ('time', 'rand', 'clock', 'random', 'drand48'):
            return [(T('fresh', fr.id, n['#'], bare), s)]
        # ---- default: functional update of whatever may be written
        vals = []
        for a in as_:
            v = self.aval(s, a)
            if v.op == 'addr':
                v = T('pt', self.read(s, v.args[0]))
            vals.append(v)
        if iscall:
            ov = self.read(s, o)
            key = T('call', short2(bare), ov, *vals)
            if not f.get('const'):
                self.write(s, fr, n, o, T('call', 'upd:' + short2(bare), ov, *vals))
        else:
            key = T('call', short2(bare), *vals)
        for i, a in enumerate(as_):
            pk = f['params'][i]['k'] if i < len(f['params']) else 'val'
            if a[0] == 'l' and pk == 'ref':
                self.write(s, fr, n, a[1], T('call', 'out:' + short2(bare), k(i), key))
            elif a[0] == 'v' and a[1].op == 'addr' and pk == 'ptr':
                self.write(s, fr, n, a[1].args[0], T('call', 'out:' + short2(bare), k(i), key))
        if f.get('retk') in ('ref', 'cref') and iscall:
            return [(o, s)] if f.get('cls') and short2(bare).startswith('operator') else [(Loc(('deref', key)), s)]
        return [(key, s)]

    def emplace(self, n, o, as_, s, fr):
        """emplace_back: find the element constructor by arity"""
        ot = n['o'].get('t', '') if n.get('o') else ''
        if 'vector<' not in ot:
            return None
        et = ot.split('vector<', 1)[1].rsplit('>', 1)[0].split(', std::allocator')[0].strip()
        r = self.P.records.get(et)
        if r is None:
            return as_[0][1] if len(as_) == 1 and as_[0][0] == 'v' else (self.read(s, as_[0][1]) if len(as_) == 1 else None)
        for m in r['methods']:
            g = self.P.funcs.get(m['id'])
            if g and g.get('ctor') and 'body' in g and len(g['params']) == len(as_) and not g.get('copyctor') and not g.get('movector'):
                l = Loc(('tmp', fr.id, ('emplace', n['#'])))
                sts = self.construct_args(g, as_, n, s, fr, l)
                if len(sts) == 1 and sts[0] is s:
                    v = self.read(s, l)
                    self._drop(s, l.root)
                    return v
                if len(sts) == 1:
                    s2 = sts[0]
                    s.env, s.refs, s.facts, s.aux = s2.env, s2.refs, s2.facts, s2.aux
                    v = self.read(s, l)
                    self._drop(s, l.root)
                    return v
        return None

    def size(self, v, which='size'):
        if v.op == 'call':
            c = v.args[0]
            if isinstance(c, str):
                if c.startswith('empty_'):
                    return ZERO
                if c == 'push' and which == 'size':
                    return add(self.size(v.args[1]), ONE)
                if c == 'pop1' and which == 'size':
                    return sub(self.size(v.args[1]), ONE)
                if c in ('sorted', 'perm', 'nth') and which == 'size':
                    return self.size(v.args[1])
                if c == 'mat':
                    if len(v.args) == 2:
                        if which in ('size', 'rows'):
                            return v.args[1]
                    elif len(v.args) == 3:
                        if which == 'rows':
                            return v.args[1]
                        if which == 'cols':
                            return v.args[2]
                        return mul(v.args[1], v.args[2])
                if c == 'ptrvec' and which in ('size', 'rows'):
                    return v.args[2]
                if c == 'new_vector' and which == 'size' and len(v.args) == 3 and v.args[1].op not in ('iter', 'addr') and v.args[2].op not in ('iter', 'addr'):
                    return v.args[1]
                if c == 'resized' and which == 'size':
                    return v.args[2]
        if v.op == 'st' and v.args[1][0][0] != '[]' or v.op == 'st' and v.args[1][0][0] == '[]' and not (
                isinstance(v.args[1][0][1], T) and v.args[1][0][1].op == 'key'):
            return self.size(v.args[0], which)
        if v.op == 'map' and not any(isinstance(x, T) and x.op == 'key' for x in subterms(v.args[4])):
            # stores to elements, columns or rows keep the size
            return self.size(v.args[0], which)
        if v.op == 'app' and which == 'size':
            return add(self.size(v.args[0]), v.args[1])
        if v.op == 'phi':
            return mkphi(v.args[0], [self.size(x, which) for x in v.args[1:]])
        if v.op == 'str':
            return k(len(v.args[0]))
        return T('call', which, v)

    def algorithm(self, name, f, as_, n, s, fr):
        vals = [self.aval(s, a) for a in as_]
        its = [v for v in vals if v.op == 'iter']
        c = its[0].args[0] if its and isinstance(its[0].args[0], Loc) else None
        if name in ('sort', 'stable_sort', 'nth_element', 'partial_sort', 'reverse') and c is not None:
            old = self.read(s, c)
            extra = [v for v in vals if v.op not in ('iter',)]
            whole = isk(its[0].args[1]) and kval(its[0].args[1]) == 0 and len(its) >= 2 and its[-1].args[1] is self.size(old)
            extra = [self.comparator(x, n, s, fr) for x in extra]
            if name in ('sort', 'stable_sort') and whole:
                v = T('call', 'sorted', old, *extra)
            elif name == 'nth_element' and whole and len(its) == 3:
                v = T('call', 'nth', old, its[1].args[1], *extra)
            else:
                v = T('call', 'perm', old, T('str', name), *[it.args[1] for it in its], *extra)
            self.write(s, fr, n, c, v)
            return [(ZERO, s)]
        if name in ('min_element', 'max_element') and c is not None:
            return [(T('iter', c, T('call', name, self.read(s, c))), s)]
        if name in ('accumulate', 'any_of', 'all_of', 'none_of', 'count_if', 'is_sorted'):
            old = self.read(s, c) if c is not None else ZERO
            r = self.reduction(name, c, its, [v for v in vals if v.op != 'iter'], n, s, fr)
            if r is not None:
                return [(r, s)]
            return [(T('call', name, old, *[v for v in vals if v.op != 'iter']), s)]
        if name == 'for_each' and c is not None and len(vals) == 3:
            fn = vals[2]
            # one generic element, any number of times
            return self.foreach(c, fn, n, s, fr)
        if name in ('copy', 'copy_n', 'transform', 'fill', 'iota'):
            for v, a in zip(vals, as_):
                pass
            dst = None
            for v in reversed(vals):
                if v.op == 'iter' and isinstance(v.args[0], Loc):
                    dst = v.args[0]
                    break
            if name in ('fill', 'iota'):
                dst = c
            if dst is not None:
                src = self.read(s, c) if c is not None else ZERO
                self.write(s, fr, n, dst, T('call', name, self.read(s, dst), src, *[v for v in vals if v.op not in ('iter', 'lam')]))
            return [(T('call', 'iterret', T('fresh', fr.id, n['#'], name)), s)]
        return [(T('call', name, *vals), s)]

    def reduction(self, name, c, its, rest, n, s, fr):
        """closed form of accumulate, count_if, any_of, ... over a range"""
        if c is None or len(its) != 2 or its[0].args[0] is not c or its[1].args[0] is not c or name == 'is_sorted':
            return None
        lo, cnt_ = its[0].args[1], sub(its[1].args[1], its[0].args[1])
        it, acc = T('it', fr.id, n['#'], name), T('acc', fr.id, n['#'])
        el = c.idx(add(lo, it))
        if name == 'accumulate' and len(rest) == 1:
            e = self.read(s, el)
        else:
            fn = rest[-1]
            if fn.op not in ('lam', 'fn', 'bind') or len(rest) != (2 if name == 'accumulate' else 1):
                return None
            self.silent += 1
            try:
                r = self.apply(fn, ([('v', acc)] if name == 'accumulate' else []) + [('l', el)], n, s.copy(), fr, None)
            finally:
                self.silent -= 1
            if len(r) != 1 or isinstance(r[0][0], Loc):
                return None
            e = sub(r[0][0], acc) if name == 'accumulate' else truth_term(r[0][0])
        if acc in subterms(e):
            return None
        if name in ('accumulate', 'count_if'):
            b = bvar(e)
            return add(rest[0] if name == 'accumulate' else ZERO, T('sum', cnt_, b, subst(e, {it: b})))
        if name == 'all_of':
            e = not_(e)
        b = bvar(e)
        a = mkany(cnt_, b, subst(e, {it: b}))
        return a if name == 'any_of' else not_(a)

    def comparator(self, fn, n, s, fr):
        """a comparison function, by what it says of two generic elements"""
        if fn.op not in ('lam', 'fn', 'bind'):
            return fn
        a, b = Loc(('elem', 1)), Loc(('elem', 2))
        self.silent += 1
        try:
            r = self.apply(fn, [('l', a), ('l', b)], n, s.copy(), fr, None)
        finally:
            self.silent -= 1
        if len(r) == 1:
            return T('cmp', r[0][0])
        return T('lamid', fn.args[0], fn.args[1]) if fn.op == 'lam' else fn

    def foreach(self, c, fn, n, s, fr):
        key = T('it', fr.id, n['#'])
        w = set()
        self.wlog.append(w)
        self.silent += 1
        try:
            self.apply(fn, [('l', c.idx(key))], n, s.copy(), fr, None)
        finally:
            self.silent -= 1
            self.wlog.pop()
        self.havoc(s, w, (n['#'], fr.id))
        s2 = s.copy()
        r = self.apply(fn, [('l', c.idx(key))], n, s2, fr, None)
        st = self.join([x for v, x in r] + [s], ('fe', n['#'], fr.id))
        return [(ZERO, x) for x in st]

    EIGPURE = {'cwiseSqrt', 'cwiseInverse', 'cwiseAbs', 'transpose', 'asDiagonal', 'norm', 'squaredNorm', 'maxCoeff', 'minCoeff', 'sum',
               'sqrt', 'replicate', 'colwise', 'rowwise', 'eigenvalues', 'eigenvectors', 'operatorSqrt', 'operatorInverseSqrt', 'dot',
               'info', 'matrixL', 'cwiseMax', 'cwiseMin', 'trace', 'mean', 'prod', 'exp', 'array', 'matrix', 'eval', 'reverse', 'inverse', 'determinant',
               'isApprox', 'abs', 'square', 'normalized'}

    def eigen(self, name, f, o, as_, n, s, fr):
        V = lambda i: self.aval(s, as_[i])
        nargs = len(as_)
        if o is not None:
            if name in ('col', 'row') and nargs == 1:
                return [(o.view(name, (V(0),)), s)]
            if name == 'block' and nargs == 4:
                r0, c0, nr, nc = [V(i) for i in range(4)]
                if c0 is ZERO and nr is k(1) and nc is self.size(self.read(s, o), 'cols'):
                    return [(o.view('row', (r0,)), s)]
                if r0 is ZERO and nc is k(1) and nr is self.size(self.read(s, o), 'rows'):
                    return [(o.view('col', (c0,)), s)]
            if name in ('block', 'head', 'tail', 'topRows', 'leftCols', 'rightCols', 'bottomRows', 'segment', 'middleCols', 'middleRows'):
                return [(o.view(name, tuple(V(i) for i in range(nargs))), s)]
            if name == 'diagonal':
                return [(o.view('diagonal', ()), s)]
            if name in ('operator+=', 'operator-='):
                old = self.read(s, o)
                self.write(s, fr, n, o, add(old, V(0)) if name == 'operator+=' else sub(old, V(0)))
                return [(o, s)]
            if name in ('operator*=', 'operator/='):
                old = self.read(s, o)
                self.write(s, fr, n, o, mul(old, V(0)) if name == 'operator*=' else div(old, V(0)))
                return [(o, s)]
            if name in ('operator+', 'operator-') and nargs == 1:
                a = self.read(s, o)
                if a.op == 'call' and a.args[0] == 'colwise' and len(a.args) == 2:
                    return [(T('call', 'coladd', a.args[1], V(0) if name == 'operator+' else neg(V(0))), s)]
                return [(add(a, V(0)) if name == 'operator+' else sub(a, V(0)), s)]
            if name == 'operator-' and nargs == 0:
                return [(neg(self.read(s, o)), s)]
            if name in ('operator*', 'operator/') and nargs == 1:
                a, b = self.read(s, o), V(0)
                if self.scalar(n['args'][0]):
                    return [(mul(a, b) if name == 'operator*' else div(a, b), s)]
                if 'Array' in n.get('t', '') and 'scalar_constant_op' not in n['t']:
                    # coefficient-wise product or quotient of arrays
                    return [(T('call', 'cwiseProduct', *sorted((a, b))) if name == 'operator*' else T('call', 'cwiseQuotient', a, b), s)]
                return [(self.matmul(a, b), s)]
            if name == 'cwiseProduct':
                a, b = sorted((self.read(s, o), V(0)))
                return [(T('call', 'cwiseProduct', a, b), s)]
            if name == 'cwiseQuotient':
                return [(T('call', 'cwiseQuotient', self.read(s, o), V(0)), s)]
            if name == 'transpose':
                return [(T('call', 'transpose', self.read(s, o)), s)]
            if name in ('resize', 'conservativeResize', 'setZero', 'setConstant', 'setIdentity', 'setOnes', 'fill'):
                old = self.read(s, o)
                self.write(s, fr, n, o, T('call', name, old, *[V(i) for i in range(nargs)]))
                return [(o, s)]
            if name in self.EIGPURE:
                return [(T('call', name, self.read(s, o), *[V(i) for i in range(nargs)]), s)]
            if name.startswith('operator ') and nargs == 0:   # conversion
                return [(self.read(s, o), s)]
        else:
            if f.get('static') or name in ('Constant', 'Zero', 'Identity', 'Random', 'NullaryExpr', 'Ones'):
                if name == 'Constant':
                    vs = [V(i) for i in range(nargs)]
                    return [(T('call', 'Constant', *vs), s)]
                if name == 'Zero':
                    return [(T('call', 'Constant', *([V(i) for i in range(nargs)] + [ZERO])), s)]
                if name == 'Ones':
                    return [(T('call', 'Constant', *([V(i) for i in range(nargs)] + [ONE])), s)]
                if name == 'Identity':
                    return [(T('call', 'Identity', *[V(i) for i in range(nargs)]), s)]
                if name == 'NullaryExpr' and as_ and as_[-1][0] == 'l':
                    # element generator: its effects (not the number of calls) matter
                    cls = (n['args'][-1].get('t') or '').replace('const ', '').replace('&', '').strip() if n.get('args') else ''
                    g = None
                    for c in (cls, cls.replace('struct ', '').replace('class ', '')):
                        for m in (self.P.records.get(c) or {}).get('methods', []):
                            h = self.P.funcs.get(m['id'])
                            if h and h['name'] == 'operator()' and 'body' in h:
                                g = h
                    if g is None:
                        for h in self.P.funcs.values():
                            if h['name'] == 'operator()' and 'body' in h and h.get('cls') and h['cls'] == cls:
                                g = h
                    if g is not None:
                        out = []
                        for v, s2 in self.inline(g, as_[-1][1], [('v', ZERO)] * len(g['params']), n, s, fr):
                            v = self.read(s2, v) if isinstance(v, Loc) else v
                            out.append((T('call', 'NullaryExpr', v, *[self.aval(s2, a) for a in as_[:-1]]), s2))
                        return out
                if name == 'Random':
                    return [(T('call', 'Random', T('fresh', fr.id, n['#'], 'Random')), s)]
            if name == 'operator*' and nargs == 2:
                a, b = V(0), V(1)
                if self.scalar(n['args'][0]) or self.scalar(n['args'][1]):
                    return [(mul(a, b), s)]
                if 'Array' in n.get('t', '') and 'scalar_constant_op' not in n['t']:
                    return [(T('call', 'cwiseProduct', *sorted((a, b))), s)]
                return [(self.matmul(a, b), s)]
            if name == 'operator<<':
                return None
        return None

    def matmul(self, a, b):
        # scalars factored out of products
        out = ZERO
        pa, pb = _mon(a), _mon(b)
        if len(pa) * len(pb) > 9:
            return T('call', 'mm', a, b)
        return T('call', 'mm', a, b)

    def scalar(self, n):
        t = n.get('t', '').replace('const ', '').replace('&', '').strip()
        return t in ('double', 'int', 'float', 'long', 'unsigned int', 'unsigned long', 'bool') or 'Scalar' in t

    # ------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        """-> {'normal': [st], 'return': [(v,st)], 'break': [st], 'continue': [st]}"""
        self.nodes += 1
        if self.nodes > self.budget:
            raise Giveup('node budget')
        m = getattr(self, 'x_' + n['k'], None)
        if m is None:
            # expression in statement position
            return {CONT: [s for v, s in self.ev(n, st, fr)]}
        return m(n, st, fr)

    @staticmethod
    def merge_out(a, b, skip=()):
        for kk, v in b.items():
            if kk in skip:
                continue
            a.setdefault(kk, []).extend(v)
        return a

    def x_Expr(self, n, st, fr):
        return {CONT: [s for v, s in self.ev(n['e'], st, fr)]}

    def x_Nop(self, n, st, fr):
        return {CONT: [st]}

    def x_Block(self, n, st, fr):
        out = {}
        cur = [st]
        for x in n.get('s') or []:
            if not cur:
                break
            nx = []
            for s in cur:
                o = self.exec(x, s, fr)
                nx.extend(o.pop(CONT, []))
                self.merge_out(out, o)
            cur = self.join(nx, (x['#'], fr.id))
        out[CONT] = cur
        return out

    def x_Decl(self, n, st, fr):
        sts = [st]
        for d in n['d']:
            nx = []
            for s in sts:
                nx.extend(self.decl(d, s, fr, n))
            sts = self.join(nx, ('d', n['#'], fr.id))
        return {CONT: sts}

    def decl(self, d, s, fr, n):
        if d.get('k') not in ('Var', None):
            return [s]
        init = d.get('init')
        if d.get('static'):
            l = Loc(('glob', d.get('g') or ('static', d['v'])))
            fr.vars[d['v']] = l
            s.refs[(d['v'], fr.id)] = l
            return [s]
        if init is None:
            l = self.declare(s, fr, d)
            if d.get('t', '').endswith(']'):
                return [s]
            self.rawwrite(s, l, T('uninit', d.get('t', '')))
            return [s]
        if d.get('ref'):
            out = []
            for l, s2 in self.loc(init, s, fr):
                self.declare(s2, fr, d, loc=l)
                out.append(s2)
            return out
        if init['k'] == 'Ctor':
            l = self.declare(s, fr, d)
            return self.construct(init, s, fr, l)
        out = []
        for v, s2 in self.ev(init, s, fr):
            l = self.declare(s2, fr, d)
            self.write(s2, fr, d if '#' in d else n, l, v)
            out.append(s2)
        return out

    def x_Return(self, n, st, fr):
        out = []
        if n.get('e') is None:
            self.fire('on_return', st, fr, n, None)
            return {'return': [(None, st)]}
        if getattr(fr, 'retref', False):
            for l, s in self.loc(n['e'], st, fr):
                self.fire('on_return', s, fr, n, l)
                out.append((l, s))
        else:
            for v, s in self.ev(n['e'], st, fr):
                self.fire('on_return', s, fr, n, v)
                out.append((v, s))
        return {'return': out}

    def x_Break(self, n, st, fr):
        return {'break': [st]}

    def x_Continue(self, n, st, fr):
        return {'continue': [st]}

    def x_If(self, n, st, fr):
        sts = [st]
        if n.get('init'):
            sts = self.exec(n['init'], st, fr).get(CONT, [])
        if n.get('cv'):
            sts = [s2 for s in sts for s2 in self.decl(n['cv'], s, fr, n)]
        out = {}
        norm = []
        for s in sts:
            ts, fs = self.cond(n['c'], s, fr)
            ts = self.join(ts, ('ifT', n['#'], fr.id))
            fs = self.join(fs, ('ifF', n['#'], fr.id))
            for s1 in ts:
                o = self.exec(n['a'], s1, fr)
                norm.extend(o.pop(CONT, []))
                self.merge_out(out, o)
            for s1 in fs:
                if n.get('b'):
                    o = self.exec(n['b'], s1, fr)
                    norm.extend(o.pop(CONT, []))
                    self.merge_out(out, o)
                else:
                    norm.append(s1)
        out[CONT] = self.join(norm, ('if', n['#'], fr.id))
        return out

    # ---- loops
    def x_For(self, n, st, fr):
        sts = [st]
        if n.get('init'):
            sts = self.exec(n['init'], st, fr).get(CONT, [])
        return self.loops(n, sts, fr, n.get('c'), n.get('inc'), n.get('s'))

    def x_While(self, n, st, fr):
        return self.loops(n, [st], fr, n.get('c'), None, n.get('s'))

    def x_Do(self, n, st, fr):
        # body once, then a while loop
        out = {}
        o = self.exec(n['s'], st, fr)
        cur = o.pop(CONT, []) + o.pop('continue', [])
        brk = o.pop('break', [])
        self.merge_out(out, o)
        cur = self.join(cur, ('do', n['#'], fr.id))
        o = self.loops(n, cur, fr, n.get('c'), None, n.get('s'))
        self.merge_out(out, o)
        out[CONT] = self.join(out.get(CONT, []) + brk, ('do2', n['#'], fr.id))
        return out

    def x_RangeFor(self, n, st, fr):
        out = {}
        norm = []
        for c, s in self.loc(n['range'], st, fr):
            d = n['var']
            key = T('it', fr.id, n['#'])

            def bind(s1, key=key, c=c):
                el = c.idx(key)
                if d.get('ref'):
                    self.declare(s1, fr, d, loc=el)
                else:
                    l = self.declare(s1, fr, d)
                    self.rawwrite(s1, l, self.read(s1, el))
                return [s1]
            o = self.loop(n, s, fr, None, None, n['s'], pre=bind, trip=self.size(self.read(s, c)), key=key)
            norm.extend(o.pop(CONT, []))
            self.merge_out(out, o)
        out[CONT] = self.join(norm, ('rf', n['#'], fr.id))
        return out

    def loops(self, n, sts, fr, c, inc, body):
        out = {}
        norm = []
        for s in sts:
            o = self.loop(n, s, fr, c, inc, body)
            norm.extend(o.pop(CONT, []))
            self.merge_out(out, o)
        out[CONT] = self.join(norm, ('lp', n['#'], fr.id))
        return out

    def havoc(self, s, w, lk, keep=None):
        for l in sorted(w, key=lambda x: len(x.path)):
            v = self.read_plain(s, l)
            if v.op == 'iter':
                nv = T('iter', v.args[0], T('loop', lk, l))
            else:
                nv = T('loop', lk, l)
            self._set(s.env, l, nv)
            for ww in self.wlog:
                ww.add(l)

    def body_once(self, n, s, fr, c, inc, body, pre):
        """one iteration from head state s: (back-edge states, exit states, breaks, other outcomes)"""
        exits, back, brk, other = [], [], [], {}
        if c is not None:
            ts, fs = self.cond(c, s, fr)
            exits.extend(fs)
        elif pre is not None:
            exits.append(s.copy())
            ts = [s]
        else:
            ts = [s]
        ts = self.join(ts, ('lc', n['#'], fr.id))
        cont = []
        for s1 in ts:
            if pre is not None:
                l1 = pre(s1)
            else:
                l1 = [s1]
            for s2 in l1:
                o = self.exec(body, s2, fr)
                cont.extend(o.pop(CONT, []))
                cont.extend(o.pop('continue', []))
                brk.extend(o.pop('break', []))
                self.merge_out(other, o)
        cont = self.join(cont, ('lb', n['#'], fr.id))
        for s1 in cont:
            if inc is not None:
                back.extend(s2 for v, s2 in self.ev(inc, s1, fr))
            else:
                back.append(s1)
        return back, exits, brk, other

    def loop(self, n, st, fr, c, inc, body, pre=None, trip=None, key=None):
        lk = (n['#'], fr.id)
        it = key or T('it', fr.id, n['#'])
        # 1. what may the loop write?  (fixpoint, hooks off)
        w = set()
        self.silent += 1
        head0 = None
        try:
            for _ in range(4):
                s = st.copy()
                self.havoc(s, w, lk)
                ww = set()
                self.wlog.append(ww)
                auxs = [s.aux]
                try:
                    self.body_once(n, s, fr, c, inc, body, pre)
                finally:
                    self.wlog.pop()
                ww = {l for l in ww if self.visible(l, st, fr)}
                if ww <= w:
                    break
                w |= ww
        finally:
            self.silent -= 1
        u = self.rule.unroll(self, w, n)
        if u:
            out = {}
            if trip is not None and pre is not None:
                out[CONT] = self.unrolled_range(n, [st], fr, body, pre, trip, u, 0, out)
            else:
                out[CONT] = self.unrolled(n, [st], fr, c, inc, body, pre, u, out)
            return out
        # 2. induction variables: equal invariant step on every back edge
        ind = {}
        link = {}
        self.silent += 1
        try:
            s = st.copy()
            self.havoc(s, w, lk)
            heads = {l: s.env[l] for l in w if l in s.env}
            back, exits, brk, other = self.body_once(n, s, fr, c, inc, body, pre)
            deltas = {}
            for l, h in heads.items():
                hv = h.args[1] if h.op == 'iter' else h
                ds = []
                for b in back:
                    bv = self.read_plain(b, l)
                    if h.op == 'iter':
                        bv = bv.args[1] if bv.op == 'iter' and bv.args[0] is h.args[0] else None
                    if bv is None or not (isnum(bv) or bv is hv):
                        ds = None
                        break
                    ds.append(sub(bv, hv))
                if ds is None or not ds:
                    continue
                deltas[l] = ds
            lsyms = set()
            for h in heads.values():
                lsyms.add(h.args[1] if h.op == 'iter' else h)
            for l, ds in deltas.items():
                if all(d is ds[0] for d in ds) and not (subterms(ds[0]) & lsyms) and not self.varies(ds[0], lk, it, back):
                    ind[l] = ds[0]
            # counters incremented while  it + c < M  (M invariant): closed form
            cnt = {}
            for l, ds in deltas.items():
                if l in ind or not all(d is ds[0] for d in ds) or heads[l].op == 'iter':
                    continue
                cf = self.countform(ds[0], lk, it, lsyms, {heads[i]: add(self.read_plain(st, i), mul(d, it)) for i, d in ind.items() if heads[i].op != 'iter'})
                if cf is not None:
                    cnt[l] = cf
            # accumulations  x += e(i)  and element-wise stores  a[i] = e(i)
            indval = {heads[i]: add(self.read_plain(st, i), mul(d, it)) for i, d in ind.items() if heads[i].op != 'iter'}
            ihead = {}
            for i, d in ind.items():
                if heads[i].op == 'iter':
                    e = self.read_plain(st, i)
                    if e.op == 'iter':
                        indval[heads[i].args[1]] = add(e.args[1], mul(d, it))
            free = lsyms - set(indval)
            sums, maps = {}, {}
            for l, ds in deltas.items():
                if l in ind or l in cnt or heads[l].op == 'iter' or not all(d is ds[0] for d in ds):
                    continue
                d = subst(ds[0], indval)
                if (subterms(d) & free) or self.unstable(d, lk):
                    continue
                b = bvar(d)
                sums[l] = (b, subst(d, {it: b}))
            for l, h in heads.items():
                if l in ind or l in cnt or l in sums or h.op == 'iter' or len(back) != 1:
                    continue
                m = self.mapform(h, self.read_plain(back[0], l), it, indval, free, self.read_plain(st, l), lk)
                if m is not None:
                    maps[l] = m
            # running minimum / maximum
            folds = {}
            for l, h in heads.items():
                if l in ind or l in cnt or l in sums or l in maps or h.op == 'iter' or len(back) != 1:
                    continue
                v = self.read_plain(back[0], l)
                if v.op == 'call' and v.args[0] in ('min', 'max') and len(v.args) == 3 and h in v.args[1:]:
                    e = v.args[1] if v.args[2] is h else v.args[2]
                    e = subst(e, indval)
                    if not (subterms(e) & free) and not self.unstable(e, lk):
                        b = bvar(e)
                        folds[l] = (v.args[0], b, subst(e, {it: b}))
            # one element appended in every iteration
            apps = {}
            for l, h in heads.items():
                if l in ind or l in cnt or l in sums or l in maps or l in folds or h.op == 'iter' or len(back) != 1:
                    continue
                e = self.appended(self.read_plain(back[0], l), h)
                if e is not None:
                    e = subst(e, indval)
                    if not (subterms(e) & free) and not self.unstable(e, lk, True):
                        b = bvar(e)
                        apps[l] = (b, subst(e, {it: b}))
            # locations changed by the same amounts on every back edge
            groups = {}
            for l, ds in deltas.items():
                if l in ind or l in cnt or l in sums or l in folds or l in apps:
                    continue
                groups.setdefault(tuple(ds), []).append(l)
            for ds, ls in groups.items():
                if len(ls) > 1:
                    ls.sort(key=lambda l: str(l))
                    link.update({l: ls[0] for l in ls[1:]})
        finally:
            self.silent -= 1
        # 3. the real pass, once per reachable typestate at the head
        entry = st
        seen = {}
        work = [entry.aux]
        out = {}
        exits_all, brk_all = [], []
        first = True
        rounds = 0
        while work:
            aux = work.pop()
            if aux in seen:
                continue
            seen[aux] = True
            rounds += 1
            s = entry.copy()
            s.aux = aux
            self.havoc(s, w, lk)
            for l, d in ind.items():
                e = self.read_plain(entry, l)
                if e.op == 'iter':
                    s.env[l] = T('iter', e.args[0], add(e.args[1], mul(d, it)))
                else:
                    s.env[l] = add(e, mul(d, it))
            for l, (c0, c1, M) in cnt.items():
                e = self.read_plain(entry, l)
                a, b = sorted((it, M))
                s.env[l] = add(e, add(mul(c0, it), mul(c1, T('call', 'min', a, b))))
            for l, (b, d) in sums.items():
                s.env[l] = add(self.read_plain(entry, l), T('sum', it, b, d))
            for l, (o_, b, e_) in folds.items():
                e0 = self.read_plain(entry, l)
                x, y = sorted((e0, T('fold', o_, it, b, e_)))
                s.env[l] = T('call', o_, x, y)
            for l, (b, e_) in apps.items():
                s.env[l] = T('app', self.read_plain(entry, l), it, b, e_)
            for l, (b, lo, tails) in maps.items():
                s.env[l] = mkmap(self.read_plain(entry, l), lo, it, b, tails)
            for l, m in link.items():
                e, em = self.read_plain(entry, l), self.read_plain(entry, m)
                if e.op not in NONNUM and em.op not in NONNUM:
                    s.env[l] = add(s.env[m], sub(e, em))
            for l in w:
                self.loopinfo[T('loop', lk, l)] = (self.read_plain(entry, l), [])
            self.fire('on_loop', s, fr, n, 'head')
            back, exits, brk, other = self.body_once(n, s, fr, c, inc, body, pre)
            for l in w:
                self.loopinfo[T('loop', lk, l)] = (self.read_plain(entry, l), [self.read_plain(b, l) for b in back])
            for b in back:
                self.fire('on_loop', b, fr, n, 'back')
                if b.aux not in seen:
                    work.append(b.aux)
            any_ = self.anyform(lk, it, trip, c, back, exits, brk, other)
            for e in exits:
                t = trip
                if t is None and c is not None:
                    t = self.tripcount(e, c, it)
                if t is not None and (not brk or any_ is not None):
                    self.subst_state(e, {it: t})
                exits_all.append(e)
            brk_all.extend(brk)
            self.merge_out(out, other)
            if rounds > 64:
                self.imprecise.append(('loop-aux', self.where(fr, n)))
                break
        res = exits_all + brk_all
        for s in res:
            self.fire('on_loop', s, fr, n, 'exit')
        out[CONT] = self.join(res, ('lx', n['#'], fr.id))
        return out

    def appended(self, v, h):
        """e such that v is h with e appended"""
        if v.op == 'call' and v.args[0] == 'push' and v.args[1] is h:
            return v.args[2]
        if v.op == 'phi' and v.args[0][0] == 'gate' and len(v.args) == 3:
            es = [self.appended(x, h) for x in v.args[1:]]
            if None not in es:
                return mkphi(v.args[0], es)
        return None

    def unrolled(self, n, sts, fr, c, inc, body, pre, u, out):
        """states after at most u iterations of the loop; others are cut"""
        res = []
        for s in sts:
            if u == 0:
                if self.rule.bounded:
                    res.append([s])
                    continue
                ts, fs = self.cond(c, s, fr) if c is not None else ([s], [])
                for t in ts:
                    self.rule.cut(self, t)
                res.append(fs + ts)
                continue
            back, exits, brk, other = self.body_once(n, s, fr, c, inc, body, pre)
            self.merge_out(out, other)
            res.append(exits + brk + (self.unrolled(n, back, fr, c, inc, body, pre, u - 1, out) if back else []))
        return self.join([s for r in res for s in r], ('un', n['#'], fr.id, u))

    def unrolled_range(self, n, sts, fr, body, pre, trip, u, j, out):
        res = []
        for s in sts:
            if j == u:
                if not self.rule.bounded:
                    self.rule.cut(self, s)
                res.append(s)
                continue
            e, t = s.copy(), s
            if self.assume(e, eq(trip, k(j)), True):
                res.append(e)
            if self.assume(t, eq(trip, k(j)), False):
                back, _, brk, other = self.body_once(n, t, fr, None, None, body, lambda s1: pre(s1, key=k(j)))
                self.merge_out(out, other)
                res += brk + self.unrolled_range(n, back, fr, body, pre, trip, u, j + 1, out)
        return self.join(res, ('un', n['#'], fr.id, j))

    def anyform(self, lk, it, trip, c, back, exits, brk, other):
        """a search loop: it leaves early in iteration i iff C(i).  The exit
        through the loop condition then means that no i satisfies C, the early
        exit that some does (the first one)."""
        early = [('b', j, s) for j, s in enumerate(brk)] + [('r', j, s) for j, (v, s) in enumerate(other.get('return', []))]
        if not early or len(back) != 1 or len(exits) != 1 or any(kk not in ('return',) and vv for kk, vv in other.items()):
            return None
        n = trip
        if n is None and c is not None:
            n = self.tripcount(exits[0], c, it)
        if n is None or it in subterms(n) or self.unstable(n, lk):
            return None
        C = ZERO
        for kd, j, s in early:
            g = self.gate(s, back[0])
            if g is None:
                return None
            t, pos = g
            t = truth_term(t, pos)
            if not is_bool(t) or self.unstable(t, lk):
                return None
            C = or_(C, t)
        b = bvar(C)
        a = mkany(n, b, subst(C, {it: b}))
        if isk(a):
            return None
        pos = True
        if a.op == 'op' and a.args[0] == '!':
            a, pos = a.args[1], False
        first = T('first', n, b, subst(C, {it: b}))
        for e in exits:
            e.facts[a] = not pos
        for kd, j, s in early:
            self.subst_state(s, {it: first})
            s.facts[a] = pos
            if kd == 'r':
                v = other['return'][j][0]
                if isinstance(v, (T, Loc)):
                    v = subst(v, {it: first})
                other['return'][j] = (v, s)
        return a

    def unstable(self, t, lk, objects=False):
        for x in subterms(t):
            if isinstance(x, T):
                if x.op == 'loop' and x.args[0] == lk:
                    return True
                if x.op == 'fresh' or x.op == 'uninit' and not (objects and x.args and x.args[0]) or (x.op == 'phi' and x.args[0][0] != 'gate'):
                    return True
        return False

    def mapform(self, h, v, it, indval, free, entry, lk):
        """v = h with element it+lo replaced -> (bv, lo, ((kind, tail, value), ...))"""
        paths = set()

        def spine(x):
            if x is h:
                return True
            if x.op == 'st':
                paths.add(x.args[1])
                return spine(x.args[0])
            if x.op == 'phi' and x.args[0][0] == 'gate':
                return spine(x.args[1]) and spine(x.args[2])
            return False
        if v is h or not spine(v) or not paths:
            return None
        lo = kind = None
        for p in paths:
            c = p[0]
            if c[0] == '[]':
                kd, i = ('[]',), c[1]
            elif c[0] == 'v' and c[1] in ('col', 'row') and len(c[2]) == 1:
                kd, i = ('v', c[1]), c[2][0]
            else:
                return None
            if not isinstance(i, T):
                return None
            l0 = sub(subst(i, indval), it)
            if it in subterms(l0) or subterms(l0) & free or self.unstable(l0, lk):
                return None
            if lo is None:
                lo, kind = l0, kd
            elif lo is not l0 or kind != kd:
                return None
        out = []
        tails = sorted({p[1:] for p in paths}, key=lambda q: (len(q), str(q)))
        first = next(iter(paths))[0]
        if any(len(a) < len(b) and b[:len(a)] == a for a in tails for b in tails):
            tails = [t for t in tails if not any(a != t and t[:len(a)] == a for a in tails)]
        for tl in tails:
            if any(c[0] != '.' for c in tl):
                return None
            x = self.proj(v, (first,) + tl)
            # the element's own old value
            old = {y: self.proj(subst(entry, {}), subst(y.args[1], indval)) for y in subterms(x)
                   if isinstance(y, T) and y.op == 'sel' and y.args[0] is h and y.args[1][0] == first}
            x = subst(subst(x, old), indval)
            if subterms(x) & free or self.unstable(x, lk):
                return None
            out.append((kind, tl, x))
        b = bvar(*[x for _, _, x in out])
        return b, lo, tuple((kd, tl, subst(x, {it: sub(b, lo)})) for kd, tl, x in out)

    def countform(self, d, lk, it, lsyms, indval):
        """d = c0 + c1*[it + c < M]  ->  (c0, c1, M - c)"""
        p = _mon(d)
        ind = None
        c0, c1 = {}, 0
        for m, c in p.items():
            bs = [x for x in m if is_bool(x)]
            if len(bs) == 1 and len(m) == 1 and ind in (None, bs[0]):
                ind = bs[0]
                c1 += c
            elif bs:
                return None
            else:
                c0[m] = c
        if ind is None:
            return None
        c0 = terms_mk(c0)
        if subterms(c0) & lsyms or self.varies(c0, lk, it, None):
            return None
        t = subst(ind, indval)
        if t.op != 'op' or t.args[0] != '<':
            return None
        df = sub(t.args[1], t.args[2])
        q = _mon(df)
        ci = q.get((it,))
        r = {m: c for m, c in q.items() if m != (it,)}
        r = terms_mk(r)
        if ci is None or it in subterms(r) or (subterms(r) & lsyms) or self.varies(r, lk, it, None):
            return None
        if ci == 1:          # it + r < 0  <=> it < -r
            return c0, k(c1), neg(r)
        if ci == -1:         # r < it  <=> not it < r+1
            return add(c0, k(c1)), k(-c1), add(r, ONE)
        return None

    def mentions(self, t, x):
        return x in subterms(t)

    def mentions_loop(self, t, lk, _):
        return any(isinstance(x, T) and x.op == 'loop' and x.args[0] == lk for x in subterms(t))

    def varies(self, t, lk, it, back):
        """does t denote something computed anew in each iteration?"""
        for x in subterms(t):
            if isinstance(x, T):
                if x is it or (x.op == 'loop' and x.args[0] == lk):
                    return True
                if x.op == 'fresh' or (x.op == 'phi' and x.args[0][0] != 'gate'):
                    return True
        return False

    def visible(self, l, st, fr):
        """does a written location outlive one iteration?"""
        if l.root[0] == 'var':
            if l.root[3] is fr.id:
                return any(x.root == l.root for x in st.env) or l.root in [y.root for y in st.refs.values()]
            # variable of a frame below fr: dead after the iteration
            p = fr
            while p:
                if p.id is l.root[3]:
                    return True
                p = p.parent
            return any(x.root == l.root for x in st.env)
        if l.root[0] == 'tmp':
            return any(x.root == l.root for x in st.env)
        return True

    def tripcount(self, e, c, it):
        """value of the iteration counter when the loop leaves through its condition"""
        for f, v in e.facts.items():
            if f.op != 'op' or f.args[0] not in ('<', '=='):
                continue
            a, b = f.args[1], f.args[2]
            if it not in subterms(f):
                continue
            d = sub(a, b)
            p = _mon(d)
            ci = p.get((it,))
            if ci is None or any(it in m and m != (it,) for m in p):
                continue
            if any(it in subterms(x) for m in p for x in m if m != (it,)):
                continue
            if f.args[0] == '<' and not v and ci > 0:
                # !(ci*it + r < 0)  => it = -r/ci
                r = sub(d, mul(k(ci), it))
                if ci == 1:
                    return neg(r)
            if f.args[0] == '<' and v and ci < 0:
                # (N - it < 0) came from !(it <= N): it = N + 1
                r = add(d, it) if ci == -1 else None
                if r is not None and ci == -1:
                    return add(r, ONE)
            if f.args[0] == '<' and not v and ci < 0:
                pass
            if f.args[0] == '==' and v and abs(ci) == 1:
                r = sub(d, mul(k(ci), it))
                return neg(r) if ci == 1 else r
        return None

    def subst_state(self, s, m):
        memo = {}
        s.env = {l if not (subterms(l) & set(m)) else subst(l, m, memo): subst(v, m, memo) for l, v in s.env.items()}
        s.facts = {subst(f, m, memo): v for f, v in s.facts.items()}
        s.facts.pop(ONE, None)
        s.facts.pop(ZERO, None)
        s.refs = {r: subst(l, m, memo) for r, l in s.refs.items()}
        if hasattr(self.rule, 'subst_aux'):
            s.aux = self.rule.subst_aux(s.aux, m, memo)

    # ---- others
    def x_Switch(self, n, st, fr):
        out = {}
        norm = []
        body = n['s']
        flat = []

        def flatten(x):
            if x['k'] in ('Case', 'Default'):
                labs = []
                while x['k'] in ('Case', 'Default'):
                    labs.append(x)
                    if x.get('s') is None:
                        break
                    x = x['s'] if isinstance(x['s'], dict) else (x['s'][0] if x['s'] else {'k': 'Nop', '#': -2})
                flat.append((labs, x))
            else:
                flat.append(([], x))
        for x in (body.get('s') or [] if body['k'] == 'Block' else [body]):
            flatten(x)
        for v, s in self.ev(n['c'], st, fr):
            starts = []
            default = None
            anymatch = False
            rest = s.copy()
            alive = True
            for i, (labs, x) in enumerate(flat):
                for lab in labs:
                    if lab['k'] == 'Default':
                        default = i
                        continue
                    cvn = lab['v']
                    if isinstance(cvn, dict):
                        cv = self.ev(cvn, s.copy(), fr)[0][0]
                    else:
                        cv = k(cvn)
                    t = eq(v, cv)
                    h = self.holds(rest, t)
                    if h is False or not alive:
                        continue
                    s1 = rest.copy()
                    if self.assume(s1, t, True):
                        starts.append((i, s1))
                    if h is True or not self.assume(rest, t, False):
                        alive = False
            if alive:
                if default is not None:
                    starts.append((default, rest))
                else:
                    norm.append(rest)
            for i, s1 in starts:
                cur = [s1]
                for labs, x in flat[i:]:
                    if not cur:
                        break
                    nx = []
                    for s2 in cur:
                        o = self.exec(x, s2, fr)
                        nx.extend(o.pop(CONT, []))
                        norm.extend(o.pop('break', []))
                        self.merge_out(out, o)
                    cur = self.join(nx, ('sw', x['#'], fr.id))
                norm.extend(cur)
        out[CONT] = self.join(norm, ('swx', n['#'], fr.id))
        return out

    def x_Case(self, n, st, fr):
        s = n.get('s')
        return self.exec(s, st, fr) if isinstance(s, dict) else {CONT: [st]}

    x_Default = x_Case

    def x_Try(self, n, st, fr):
        w = set()
        self.wlog.append(w)
        st0 = st.copy()
        try:
            b = n['s'] if isinstance(n['s'], dict) else {'k': 'Block', 's': n['s'], '#': n['#']}
            out = self.exec(b, st, fr)
        finally:
            self.wlog.pop()
        norm = out.pop(CONT, [])
        for ww in self.wlog:
            ww |= w
        for i, h in enumerate(n.get('h', []) if not self.rule.nothrow else ()):
            s = st0.copy()
            self.havoc(s, {l for l in w if self.visible(l, st0, fr)}, ('try', n['#'], fr.id))
            v = h.get('v')
            if isinstance(v, dict) and 'v' in v:
                self.declare(s, fr, v, val=T('fresh', fr.id, n['#'], 'exc'))
            hb = h['s'] if isinstance(h['s'], dict) else {'k': 'Block', 's': h['s'], '#': n['#']}
            self.fire('on_loop', s, fr, n, 'catch')
            o = self.exec(hb, s, fr)
            norm.extend(o.pop(CONT, []))
            self.merge_out(out, o)
        out[CONT] = self.join(norm, ('try', n['#'], fr.id))
        return out

    def x_OMP(self, n, st, fr):
        self.fire('on_omp', st, fr, n, True)
        old = fr.omp
        fr.omp = fr.omp + (n,)
        sts = [st]
        try:
            b = n.get('s')
            if b is None:
                return {CONT: [st]}
            if isinstance(b, list):
                b = {'k': 'Block', 's': b, '#': n['#']}
            out = self.exec(b, st, fr)
        finally:
            fr.omp = old
        for s in out.get(CONT, []):
            self.fire('on_omp', s, fr, n, False)
        return out

    # ------------------------------------------------------------ entry
    def run(self, f, this=None, dyn=None, st=None, args=None, leave=False):
        """Analyse function record f as an entry point.
        -> [(return value, st, frame)]; a construct outside of what the
        engine models ends the analysis of this entry (Giveup)"""
        if os.environ.get('CMA_DEBUG'):
            return self._run(f, this, dyn, st, args, leave)
        try:
            return self._run(f, this, dyn, st, args, leave)
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError, ZeroDivisionError, OverflowError) as e:
            raise Giveup('construct not modelled (%s: %s)' % (type(e).__name__, str(e)[:80]))

    def _run(self, f, this=None, dyn=None, st=None, args=None, leave=False):
        this = this or Loc(('this', f.get('clsb') or ''))
        if dyn:
            self.dyncls[this.root] = dyn
        s = st or St()
        fr = Frame(f, None, this, None)
        self.visited.add(f['id'])
        ps = f['body'].get('params') or f['params']
        for i, p in enumerate(ps):
            l = Loc(('parm', p.get('n') or str(i), i))
            if args and i in args:
                a = args[i]
                if isinstance(a, Loc):
                    l = a
                else:
                    self.rawwrite(s, l, a)
            fr.vars[p['v']] = l
            s.refs[(p['v'], fr.id)] = l
        if f.get('ctor'):
            self._set(s.env, this, T('uninit', f.get('cls', '')))
            sts = [s]
            for i in f['body'].get('inits', []):
                nx = []
                for s1 in sts:
                    e = i.get('e')
                    if e is None:
                        nx.append(s1)
                    elif 'field' in i:
                        fl = this.fld(i['field'])
                        if e['k'] == 'Ctor':
                            nx.extend(self.construct(e, s1, fr, fl))
                        else:
                            for v, s2 in self.ev(e, s1, fr):
                                self.write(s2, fr, e, fl, v)
                                nx.append(s2)
                    elif e['k'] == 'Ctor':
                        nx.extend(self.construct(e, s1, fr, this))
                    else:
                        nx.extend(s2 for v, s2 in self.ev(e, s1, fr))
                sts = self.join(nx, ('init', 0, fr.id))
            out = []
            for s1 in sts:
                out.extend(self.run_body(f, s1, fr, None, leave=leave))
        else:
            out = self.run_body(f, s, fr, None, leave=leave)
        return [(v, s1, fr) for v, s1 in out]


def short(b):
    return b.split('::')[-1]


def short2(b):
    p = b.split('::')
    return '::'.join(p[-2:])
