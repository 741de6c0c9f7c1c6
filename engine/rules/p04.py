"""Quiet runs are silent: every operation, constructor and registered callback
of the strategies, and the construction of parameters, is analysed with every
quiet flag true; no reachable statement may write to a standard stream."""
from ..scen import *

ASSUMPTIONS = ['a FATAL diagnostic (inconsistent internal state) is exempt', 'streams passed in by the caller are the caller\'s']
STREAMS = ('std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr')
CFUN = ('printf', 'puts', 'putchar', 'vprintf', 'perror')
OPS = ('ask', 'eval', 'tell', 'gradf', 'gradgp', 'edm', 'stop', 'inc_iter', 'best_solution', 'plot', 'optimize')


class R(Rule):
    def __init__(self, quiet):
        self.hits = []
        self.quiet = quiet

    def opaque(self, f):
        return f['name'] in ('pheno', 'geno') and (f.get('clsb') or '').endswith('GenoPheno')

    def initial(self, I, loc):
        if loc.path and loc.path[-1][0] == '.' and loc.path[-1] == self.quiet:
            return ONE
        return None

    def on_call(self, I, st, fr, n, f, o, args):
        if f['name'] == 'LOG' and args:
            a = args[0]
            s = str(a[1]) if a[0] == 'l' else str(a[1])
            if 'FATAL' in s:
                return [(Loc(('glob', 'nullstream')), st)]
        return None

    def on_ext(self, I, st, fr, n, name, f, oloc, args):
        nm = f['name']
        if I.silent:
            return None
        if nm in ('operator<<', 'write', 'put', 'print', 'println'):
            locs = ([oloc] if oloc is not None else []) + [a[1] for a in args[:1] if a[0] == 'l']
            for l in locs:
                if l.root[0] == 'glob' and l.root[1] in STREAMS:
                    self.hits.append((I.where(fr, n), I.stack(fr), l.root[1]))
        elif nm in CFUN or (nm == 'fprintf' or nm == 'fputs' or nm == 'fwrite') and any('std' in str(a[1]) and ('out' in str(a[1]) or 'err' in str(a[1])) for a in args):
            self.hits.append((I.where(fr, n), I.stack(fr), nm))
        return None


def check(ctx):
    P = ctx.P
    done = set()
    pc = [c for c in P.records if bare(c) == 'libcmaes::CMAParameters']
    ctx.require(pc, 'CMAParameters')
    gp = getter_path(P, pc[0], 'quiet')
    ctx.require(gp, 'the quiet flag of the parameters')
    quiet = gp[-1]
    ents = []
    for cls in strategies(P):
        if ctx.tier == 'quick' and ('VDCMA' in cls or 'ACovariance' in cls or 'linScaling' in cls):
            continue
        for c in P.bases(cls):
            for m in (P.records.get(c) or {}).get('methods', []):
                f = P.funcs.get(m['id'])
                if not f or 'body' not in f or f.get('dtor') or f.get('copyctor') or f.get('movector') or f['id'] in done:
                    continue
                if f.get('ctor') or f['name'] in OPS:
                    done.add(f['id'])
                    ents.append((f, cls))
    nl = 0
    for f in P.funcs.values():
        if f.get('lambda') and 'body' in f and any('CMAParameters' in p.get('t', '') for p in f['params']):
            if f['id'] not in done:
                done.add(f['id'])
                ents.append((f, None))
                nl += 1
        if 'body' in f and f['id'] not in done and not f.get('lambda') and not f.get('copyctor') and not f.get('movector') and not f.get('dtor') and (
                (f.get('clsb') or '').endswith(('::CMAParameters', '::Parameters')) or f.get('ctor') and (f.get('clsb') or '').endswith('::CMASolutions') or
                (f.get('clsb') or '').endswith('::errstats') and '<>' in f['cls'] and any('CMAParameters' in p.get('t', '') for p in f['params'])):
            done.add(f['id'])
            ents.append((f, f.get('cls')))
    # functions installed as default callbacks
    for v in P.vars.values():
        for x in walk(v.get('init')):
            if x.get('k') == 'Fn' and x.get('f') in P.funcs and 'body' in P.funcs[x['f']] and x['f'] not in done and P.funcs[x['f']]['bare'].startswith('libcmaes::'):
                done.add(x['f'])
                ents.append((P.funcs[x['f']], None))
    for f, cls in ents:
        r = R(quiet)
        I = Interp(P, r)
        I.budget = 250000
        key = '%s/%d' % (f['bare'], len(f['params'])) + ('@%s' % f['body'].get('line') if f.get('lambda') else '')
        try:
            nested = []
            if f['name'] == 'optimize':
                op0 = r.opaque
                r.opaque = lambda g, f=f: op0(g) or (g['id'] != f['id'] and (g['name'] == 'optimize' and len(g['params']) == 3 or g['name'] in ('tell', 'ask', 'eval', 'edm')))
            if (f.get('clsb') or '').endswith('::errstats'):
                # each of its functions is an entry of its own; runs are covered above
                op1 = r.opaque
                r.opaque = lambda g, f=f: op1(g) or g['id'] != f['id'] and ((g.get('clsb') or '').endswith(('::errstats', '::CMASolutions', 'CMAStrategy')) or g['bare'] in ('libcmaes::cmaes', 'libcmaes::surrcmaes'))
            I.run(f, dyn=cls)
        except Giveup as e:
            ctx.unk(key, key, str(e))
            # what was seen still counts
        ctx.saw(I, f['bare'])
        for where, stack, s in r.hits:
            ctx.viol('%s/%s' % (key, s), where, 'writes to %s although quiet' % s, ['call path: %s' % (stack,)])
        if not r.hits:
            ctx.ok(key, '%s:%s' % (model.short(f['body']['file']), f['body'].get('line', '?')), 'silent when quiet')
