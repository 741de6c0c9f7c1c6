"""Program model: extraction of the resolved program and its loading.

run_extract() parses /repo's current sources with the clang-based extractor
(tool/cmaext.cc) and load() merges the per-unit JSON into one program.
"""
import hashlib, json, os, subprocess, sys, concurrent.futures, shutil, glob, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CMA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (parse failure, vanished anchor...)."""


def _cfg_header(dst):
    """Generate the config header from /repo's own template (all features the
    build enables on)."""
    src = os.path.join(REPO, 'include/libcmaes/libcmaes_config.h.cmake.in')
    on = {'HAVE_SURROG', 'HAVE_DLFCN_H', 'HAVE_UNISTD_H', 'HAVE_STRING_H', 'HAVE_STRINGS_H',
          'HAVE_INTTYPES_H', 'HAVE_MEMORY_H', 'HAVE_STDLIB_H', 'HAVE_STDINT_H',
          'HAVE_SYS_TYPES_H', 'HAVE_SYS_STAT_H', 'HAVE_BOOST_PYTHON', 'STDC_HEADERS'}
    out = []
    for line in open(src):
        if line.startswith('#cmakedefine'):
            p = line.split(None, 2)
            if p[1] in on:
                out.append('#define %s %s' % (p[1], p[2] if len(p) > 2 else '\n'))
            else:
                out.append('/* #undef %s */\n' % p[1])
        else:
            import re
            out.append(re.sub(r'@[A-Za-z_]+@|\$\{[A-Za-z_]+\}', '', line))
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, 'w').write(''.join(out))


def sources(units=None):
    """Translation units: every library source, the python binding and the driver."""
    lib = sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))
    us = {os.path.basename(f)[:-3]: f for f in lib}
    us['inst'] = os.path.join(VERIF, 'drivers', 'inst.cc')
    for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.cc'))):
        us['spec_' + os.path.basename(f)[:-3]] = f
    us['lcmaes'] = os.path.join(REPO, 'python', 'lcmaes.cc')
    if units is not None:
        us = {k: v for k, v in us.items() if k in units}
    return us


def _tree_hash():
    h = hashlib.sha256()
    files = []
    for d in ('src', 'include', 'python'):
        for root, dn, fn in os.walk(os.path.join(REPO, d)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cc', '.h', '.hpp', '.in')):
                    files.append(os.path.join(root, f))
    for d in ('tool', 'drivers', 'stub', 'spec'):
        for root, dn, fn in os.walk(os.path.join(VERIF, d)):
            dn.sort()
            for f in sorted(fn):
                files.append(os.path.join(root, f))
    files.append(os.path.abspath(__file__))
    for f in files:
        h.update(f.encode()); h.update(b'\0')
        h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:24]


def bare_name(c):
    out, d = [], 0
    for ch in c:
        d += (ch == '<') - (ch == '>')
        if d == 0 and ch != '>':
            out.append(ch)
    return ''.join(out)


def _renamed(tmp, names):
    """-Dold=new for the data members the specifications name (spec/fields.json)
    whose class now has another member of the same type at the same place"""
    old = json.load(open(os.path.join(VERIF, 'spec', 'fields.json')))
    now = {}
    for n in names:
        try:
            d = json.load(open(os.path.join(tmp, n + '.json')))
        except (OSError, ValueError):
            continue
        for k, r in d.get('records', {}).items():
            now.setdefault(bare_name(k), [(f['sn'], f['t']) for f in r['fields']])
    out = []
    for c, fs in old.items():
        cur = now.get(c, [])
        have = {n for n, t in cur}
        gone = [(n, t) for n, t in fs if n not in have]
        new = [(n, t) for n, t in cur if n not in {x for x, y in fs}]
        for n, t in gone:
            cand = [m for m in new if bare_name(m[1]) == bare_name(t)]
            mine = [g for g in gone if bare_name(g[1]) == bare_name(t)]
            if len(cand) == len(mine):
                out.append('-D%s=%s' % (n, cand[mine.index((n, t))][0]))
    return sorted(set(out))


def run_extract():
    subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], check=True,
                   stdout=sys.stderr)
    key = _tree_hash()
    cache = os.path.join(BUILD, 'facts-' + key)
    if os.path.exists(os.path.join(cache, 'OK')):
        return cache
    # keep at most a few old caches
    old = sorted(glob.glob(os.path.join(BUILD, 'facts-*')), key=os.path.getmtime)
    for o in old[:-3]:
        shutil.rmtree(o, ignore_errors=True)
    tmp = cache + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    inc = os.path.join(tmp, 'inc')
    _cfg_header(os.path.join(inc, 'libcmaes', 'libcmaes_config.h'))
    pyinc = sysconfig.get_paths()['include']
    numpy = '/usr/lib/python3/dist-packages/numpy/core/include'
    llvm = subprocess.run('llvm-config-18 --prefix || llvm-config --prefix', shell=True,
                          capture_output=True, text=True).stdout.split()[0]
    flags = ['-std=gnu++17', '-fopenmp', '-DNDEBUG', '-I' + os.path.join(VERIF, 'stub'), '-I' + inc,
             '-I' + os.path.join(REPO, 'include'), '-isystem', '/usr/include/eigen3',
             '-isystem', pyinc, '-isystem', numpy,
             '-resource-dir', os.path.join(llvm, 'lib/clang/18'), '-w']

    def one(item):
        name, path = item
        p = subprocess.run([os.path.join(BUILD, 'cmaext'), os.path.join(tmp, name + '.json'),
                            REPO + '/,' + os.path.join(VERIF, 'drivers') + '/,' + os.path.join(VERIF, 'spec') + '/', path, '--'] + flags
                           + (['-fno-access-control'] if name.startswith('spec_') else []),
                           capture_output=True, text=True)
        return name, p.returncode, p.stderr
    us = sources()
    # the slow ones first
    order = sorted(us.items(), key=lambda kv: -{'surrogatestrategy': 9, 'lcmaes': 8, 'inst': 7,
                                               'errstats': 6, 'cmastrategy': 5}.get(kv[0], 0))
    with concurrent.futures.ThreadPoolExecutor(max(2, (os.cpu_count() or 4))) as ex:
        for name, rc, err in ex.map(one, order):
            if rc != 0 and name.startswith('spec_'):
                # data members may just have new names
                flags = flags + _renamed(tmp, [n for n in us if not n.startswith('spec_')])
                rc = one((name, us[name]))[1]
            if rc != 0 and name.startswith('spec_'):
                # the specification no longer fits the code: its obligations are undecided
                json.dump({'errors': 1, 'stderr': err[:2000]}, open(os.path.join(tmp, name + '.json'), 'w'))
                continue
            if rc != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                raise AnalysisBroken('unit %s does not parse:\n%s' % (name, err[:3000]))
    open(os.path.join(tmp, 'OK'), 'w').write('ok')
    try:
        os.rename(tmp, cache)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return cache


class Prog:
    def __init__(self):
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.vars = {}
        self.units = []
        self._n = 0
        self._override = None
        self.nospec = {}

    def constglobals(self):
        """arithmetic statics and globals with a literal initialiser that no
        code of the program writes: name -> value"""
        if getattr(self, '_cg', None) is not None:
            return self._cg
        ar = ('int', 'double', 'float', 'long', 'bool', 'unsigned int', 'unsigned long')
        c, wr = {}, set()

        def refs(n):
            while isinstance(n, dict) and n.get('k') in ('Cast', 'Paren') and isinstance(n.get('e'), dict):
                n = n['e']
            return n.get('g') if isinstance(n, dict) and n.get('k') == 'Ref' else None

        for f in self.funcs.values():
            if 'body' not in f:
                continue
            stack = [f['body']]
            while stack:
                n = stack.pop()
                if isinstance(n, list):
                    stack.extend(n)
                    continue
                kd = n.get('k')
                if kd == 'Var' and n.get('static') and n.get('t', '').replace('const ', '') in ar and (n.get('init') or {}).get('k') == 'Lit':
                    c[n['g']] = n['init']['v']
                elif kd == 'Asg':
                    wr.add(refs(n.get('a')))
                elif kd == 'Un' and n.get('op') in ('++', '--', '&', 'post++', 'post--', 'pre++', 'pre--'):
                    wr.add(refs(n.get('e')))
                elif kd == 'Var' and n.get('ref') and isinstance(n.get('init'), dict):
                    wr.add(refs(n['init']))
                elif kd == 'Call':
                    g = self.funcs.get(n.get('f')) or {}
                    ps = g.get('params') or []
                    for i, a in enumerate(n.get('args') or []):
                        r = refs(a)
                        if r and not (i < len(ps) and ('&' not in ps[i].get('t', '&') or 'const' in ps[i].get('t', ''))):
                            wr.add(r)
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        stack.append(x)
        for v in self.vars.values():
            if v.get('t', '').replace('const ', '') in ar and (v.get('init') or {}).get('k') == 'Lit' and not v.get('staticlocal'):
                c[v['q']] = v['init']['v']
        self._cg = {g: v for g, v in c.items() if g not in wr and isinstance(v, (int, float))}
        return self._cg

    # -- lookup helpers
    def with_body(self):
        return [f for f in self.funcs.values() if 'body' in f]

    def find(self, bare, body=True):
        return [f for f in self.funcs.values() if f['bare'] == bare and (not body or 'body' in f)]

    def methods(self, clsb, name, body=True):
        return [f for f in self.funcs.values()
                if f['name'] == name and f.get('clsb') == clsb and (not body or 'body' in f)]

    def rec(self, cls):
        return self.records.get(cls)

    def bases(self, cls):
        """cls and all its bases, derived first."""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                todo.extend(r['bases'])
        return out

    def all_fields(self, cls):
        out = []
        for c in self.bases(cls):
            r = self.records.get(c)
            if r:
                out.extend(r['fields'])
        return out

    def overriders(self, fid, cls):
        """Resolve a virtual call to fid on an object of dynamic class cls."""
        base = self.funcs[fid]
        for c in self.bases(cls):
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                f = self.funcs.get(m['id'])
                if not f or f['name'] != base['name']:
                    continue
                if m['id'] == fid or self._overrides(m['id'], fid):
                    return m['id']
        return fid

    def _overrides(self, a, b):
        todo = [a]
        seen = set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo.extend(self.funcs.get(x, {}).get('overrides', []))
        return False


def _number(prog, node, tu, file):
    """Give every AST node a unique number and prefix variable ids by unit."""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if 'k' in n:
                prog._n += 1
                n['#'] = prog._n
            if 'v' in n and isinstance(n['v'], int) and not isinstance(n['v'], bool) and n.get('k') not in ('Lit', 'Enum', 'Case'):
                n['v'] = (tu, n['v'])
            for x in n.values():
                if isinstance(x, (dict, list)):
                    stack.append(x)
        elif isinstance(n, list):
            stack.extend(n)


def load(cache=None, units=None, specs=()):
    if cache is None:
        cache = run_extract()
    prog = Prog()
    names = sorted(sources())
    # the driver last: bodies come from the library's own units where they exist
    names = [n for n in names if n not in ('inst', 'lcmaes') and not n.startswith('spec_')] + ['inst', 'lcmaes'] + [
        n for n in names if n.startswith('spec_') and n[5:] in specs]
    for tu, name in enumerate(names):
        if units is not None and name not in units:
            continue
        d = json.load(open(os.path.join(cache, name + '.json')))
        if d.get('errors') and name.startswith('spec_'):
            prog.nospec[name[5:]] = d.get('stderr', '')
            continue
        if d.get('errors'):
            raise AnalysisBroken('unit %s had %d errors' % (name, d['errors']))
        prog.units.append(name)
        for fid, f in d['funcs'].items():
            old = prog.funcs.get(fid)
            if old is not None and ('body' in old or 'body' not in f):
                continue
            f['id'] = fid
            f['unit'] = name
            if 'body' in f:
                _number(prog, f['body'], tu, f['body']['file'])
                for p in f['params']:
                    p['v'] = (tu, p['v'])
            prog.funcs[fid] = f
        for k, r in d['records'].items():
            if k not in prog.records:
                for fl in r['fields']:
                    if 'init' in fl:
                        _number(prog, fl['init'], tu, r['file'])
                prog.records[k] = r
        for k, e in d['enums'].items():
            prog.enums.setdefault(k, e)
        for k, v in d['vars'].items():
            if k not in prog.vars or ('init' in v and 'init' not in prog.vars[k]):
                if 'init' in v:
                    _number(prog, v['init'], tu, v['file'])
                prog.vars[k] = v
    from . import matint
    for c, r in prog.records.items():
        if c.startswith('libcmaes::') and r['fields'] and '<' not in c:
            matint.CLASSES[c] = [f['n'] for f in prog.all_fields(c)]
    for r in prog.records.values():
        for fl in r['fields']:
            matint.SHAPES.setdefault(fl['n'], fl.get('t', '').replace('const ', ''))
    return prog


def short(path):
    """file path relative to the repository"""
    if path.startswith(REPO + '/'):
        return path[len(REPO) + 1:]
    return path
