"""Obligations, verdicts, known findings and evidence."""
import json, os, time, traceback
from . import model
from .model import AnalysisBroken, VERIF


EVID = os.environ.get('CMA_EVID', os.path.join(VERIF, 'evidence'))


class Ctx:
    def __init__(self, prop, P, tier, seed):
        self.prop, self.P, self.tier, self.seed = prop, P, tier, seed
        self.obs = {}            # key -> (status, where, detail)
        self.funcs = set()
        self.entries = []
        self.notes = []
        self.t0 = time.time()
        self.rule = ''
        self.assumptions = []

    # -- verdicts
    def ok(self, key, where='', detail=''):
        o = self.obs.get(key)
        if o is None or o[0] == 'undecided':
            self.obs[key] = ('held', where, detail)

    def viol(self, key, where, detail, trace=None):
        if self.obs.get(key, ('',))[0] != 'violated':
            self.obs[key] = ('violated', where, detail, trace or [])

    def unk(self, key, where='', detail=''):
        self.obs.setdefault(key, ('undecided', where, detail))

    def saw(self, I, entry=None):
        self.funcs |= I.visited
        if entry:
            self.entries.append(entry)

    def pmap(self, fn, items, jobs=None):
        """fn(ctx, *item) for every item, in forked worker processes; the
        obligations are merged in the order of the items"""
        items = list(items)
        jobs = jobs or min(8, os.cpu_count() or 1, len(items))
        if jobs <= 1 or os.environ.get('CMA_SERIAL'):
            for it in items:
                fn(self, *it)
            return
        import pickle, tempfile, sys
        pids = []
        nxt = tempfile.TemporaryFile()
        outs = [tempfile.TemporaryFile() for _ in range(jobs)]
        import fcntl
        nxt.write(b'0'.rjust(8))
        nxt.flush()
        lock = tempfile.NamedTemporaryFile()

        def take():
            with open(lock.name, 'r+b') as lf:
                fcntl.flock(lf, fcntl.LOCK_EX)
                i = int(os.pread(nxt.fileno(), 8, 0))
                os.pwrite(nxt.fileno(), str(i + 1).encode().rjust(8), 0)
            return i
        sys.stdout.flush()
        for w in range(jobs):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    res = []
                    while True:
                        i = take()
                        if i >= len(items):
                            break
                        c = Ctx(self.prop, self.P, self.tier, self.seed)
                        err = None
                        try:
                            fn(c, *items[i])
                        except AnalysisBroken as e:
                            err = str(e)
                        res.append((i, [(k, tuple(str(x) if not isinstance(x, list) else [str(y) for y in x] for x in o)) for k, o in c.obs.items()],
                                    c.funcs, c.entries, err))
                    pickle.dump(res, outs[w])
                    outs[w].flush()
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(rc)
            pids.append(pid)
        bad = False
        for pid in pids:
            _, stt = os.waitpid(pid, 0)
            bad = bad or stt != 0
        lock.close()
        if bad:
            raise RuntimeError('a worker of the analysis died')
        allr = []
        for o in outs:
            o.seek(0)
            allr.extend(pickle.load(o))
        for i, obs, funcs, entries, err in sorted(allr, key=lambda r: r[0]):
            self.funcs |= funcs
            self.entries.extend(entries)
            if err:
                raise AnalysisBroken(err)
            for k, o in obs:
                if o[0] == 'held':
                    self.ok(k, *o[1:])
                elif o[0] == 'violated':
                    self.viol(k, *o[1:])
                else:
                    self.unk(k, *o[1:])

    def require(self, cond, what):
        if not cond:
            raise AnalysisBroken('anchor vanished: ' + what)

    # -- results
    def known(self):
        out = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.prop):
                    rest = line.split(' ', 2)[2]
                    if rest.startswith('key='):
                        kk, _, what = rest[4:].partition(' :: ')
                        out.append((kk.strip(), what.strip()))
        return out

    def finish(self, write=True):
        known = self.known()
        kd = dict(known)
        bad = {k: o for k, o in self.obs.items() if o[0] == 'violated'}
        new = {k: o for k, o in bad.items() if k not in kd}
        for k, what in known:
            if k in bad:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        held = [k for k, o in self.obs.items() if o[0] == 'held']
        und = [(k, o) for k, o in self.obs.items() if o[0] == 'undecided']
        if not self.obs:
            raise AnalysisBroken('no obligation was generated')
        if not held and not bad and not self.P.nospec:
            raise AnalysisBroken('no obligation could be decided')
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the current source (clang AST of every library unit, '
                               'the Python binding and the header-only entry points), nothing is executed. '
                               + self.rule,
                'rule': self.rule,
                'units_parsed': len(self.P.units),
                'entry_points': len(set(self.entries)),
                'functions_analysed': len(self.funcs),
                'obligations': len(self.obs),
                'held': len(held), 'undecided': len(und), 'violated': len(bad),
                'samples': [{'obligation': k, 'where': self.obs[k][1], 'detail': str(self.obs[k][2])[:300]}
                            for k in sorted(held)[:12]],
                'undecided_list': [{'obligation': k, 'where': o[1], 'why': str(o[2])[:200]} for k, o in und[:20]],
                'entries': sorted(set(self.entries))[:40],
                'analysed': sorted({self.P.funcs[f]['bare'] for f in self.funcs if f in self.P.funcs})[:200],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        if write:
            d = EVID
            os.makedirs(d, exist_ok=True)
            json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)
        if new:
            rp = os.path.join(EVID, self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                for k, o in sorted(new.items()):
                    f.write('property=%s obligation=%s\n  at %s\n  %s\n' % (self.prop, k, o[1], o[2]))
                    for t in o[3]:
                        f.write('    %s\n' % (t,))
            for k, o in sorted(new.items()):
                print('%s: %s: %s' % (o[1], k, o[2]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('property=%s held: %d obligations held, %d undecided, %d functions analysed' % (
            self.prop, len(held), len(und), len(self.funcs)))
        return 0
