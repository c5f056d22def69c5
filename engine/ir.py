"""Compile /repo sources to LLVM IR (clang), normalise (opt), load as Python structures."""
import json, os, subprocess, hashlib, re, sys, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
CLANG, OPT = 'clang++-18', 'opt-18'
PASSES = 'lowerinvoke,function(simplifycfg,sroa,early-cse,simplifycfg,loop-simplify)'


class BuildError(Exception):
    pass


def config_dir():
    """config.h of the build tree when there is one, else the copy kept in /verif (same configure run)."""
    if os.path.exists(f'{REPO}/_build/config.h'):
        return f'{REPO}/_build'
    return os.path.join(VERIF, 'engine', 'fallback')


def inc_flags():
    dirs = ['daemon/connect', 'daemon/extension', 'daemon/feed', 'daemon/frontend', 'daemon/main', 'daemon/nntp',
            'daemon/postprocess', 'daemon/queue', 'daemon/remote', 'daemon/util', 'daemon/nserv', 'lib/par2', 'lib/yencode']
    return ['-DHAVE_CONFIG_H', '-I' + config_dir(), '-I' + REPO] + [f'-I{REPO}/{d}' for d in dirs] + \
        ['-I/usr/include/libxml2', '-D_DEFAULT_SOURCE', '-D_XOPEN_SOURCE=600', '-I/usr/include/p11-kit-1',
         '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-w', '-std=gnu++17']


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd[:3]) + '...: ' + p.stderr.decode(errors='replace')[-2000:])
    return p.stdout


def tool():
    exe = os.path.join(BUILD, 'irdump')
    src = os.path.join(VERIF, 'engine', 'irdump.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        flags = subprocess.check_output(['llvm-config-18', '--cxxflags', '--ldflags']).decode().split()
        tmp = exe + '.%d' % os.getpid()
        run(['clang++-18', '-O1', '-w'] + [f for f in flags if not f.startswith('-W')] + [src, '-o', tmp, '-lLLVM-18'])
        os.rename(tmp, exe)
    return exe


def load_tu(src, outdir, extra=(), passes=PASSES):
    """src: path relative to /repo (or absolute, for driver TUs kept in /verif that #include the real source)."""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    if not os.path.exists(path):
        raise BuildError('missing source ' + path)
    base = os.path.join(outdir, re.sub(r'[^A-Za-z0-9]', '_', src))
    run([CLANG] + inc_flags() + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-limit-debug-info', '-fno-discard-value-names',
        '-emit-llvm', '-c', path, '-o', base + '.0.bc'])
    run([OPT, '-passes=' + passes, base + '.0.bc', '-o', base + '.bc'])
    out = run([tool(), base + '.bc'])
    for f in (base + '.0.bc', base + '.bc'):
        os.unlink(f)
    return json.loads(out.decode())


class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'parent', 'id')


class Func:
    """One function definition: blocks, CFG, RPO order, natural loops."""

    def __init__(self, name, d, tu):
        self.name, self.dem, self.tu = name, d['dem'], tu
        self.args, self.ret = d['args'], d['ret']
        self.file, self.line = d.get('file', ''), d.get('line', 0)
        self.blocks = {b[0]: b[1] for b in d['blocks']}
        self.entry = d['blocks'][0][0]
        self.orig = {}
        self._cfg()
        for _ in range(4):
            if not self.irreducible or not self._split():
                break
            self._cfg()

    def succs(self, b):
        t = self.blocks[b][-1]
        op, x = t[0], t[5]
        if op == 'br':
            return [x[0]] if len(x) == 1 else [x[1], x[2]]
        if op == 'switch':
            r = [x[2]] + [c[1] for c in x[3]]
            return list(dict.fromkeys(r))
        if op == 'invoke':
            return [x['normal']]
        return []

    def _retarget(self, b, m):
        t = list(self.blocks[b][-1])
        op, x = t[0], t[5]
        g = lambda y: m.get(y, y)
        if op == 'br':
            x = [g(x[0])] if len(x) == 1 else [x[0], g(x[1]), g(x[2])]
        elif op == 'switch':
            x = list(x[:2]) + [g(x[2]), [[c[0], g(c[1])] + list(c[2:]) for c in x[3]]] + list(x[4:])
        elif op == 'invoke':
            x = dict(x, normal=g(x['normal']))
        t[5] = x
        self.blocks[b] = list(self.blocks[b][:-1]) + [t]

    def _split(self):
        """node splitting: a cycle with several entries gets a single one; the part of it that other entries run through
        before they reach that one is duplicated (values keep their names: execution is by environment, not by SSA form)"""
        head, tail = self.irreducible
        def reach(a, succ):
            seen, st = set(), [a]
            while st:
                x = st.pop()
                for y in succ[x]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            return seen
        fwd, bwd = reach(head, {b: self.succ[b] for b in self.order}), reach(head, self.pred)
        scc = fwd & bwd
        if len(scc) > 60:
            return False
        rest = scc - {head}
        m = {x: f'{x}@{len(self.orig)}' for x in rest}
        outside = [b for b in self.order if b not in scc and any(s in rest for s in self.succ[b])]
        for x in rest:
            self.blocks[m[x]] = list(self.blocks[x])
            self.orig[m[x]] = self.orig.get(x, x)
        for x in rest:
            self._retarget(m[x], m)
        for b in outside:
            self._retarget(b, m)
        return True

    def _cfg(self):
        self.succ = {b: self.succs(b) for b in self.blocks}
        order, seen = [], set()
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.order = order
        self.rpo = {b: i for i, b in enumerate(order)}
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while self.rpo[a] > self.rpo[c]:
                            a = idom[a]
                        while self.rpo[c] > self.rpo[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self.idom = idom

        def dom(a, b):
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
            return a == b
        self.loops, self.irreducible = {}, False
        for b in order:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    if not dom(s, b):
                        self.irreducible = (s, b)
                        continue
                    lp = self.loops.get(s)
                    if lp is None:
                        lp = self.loops[s] = Loop()
                        lp.header, lp.blocks, lp.latches, lp.parent = s, {s}, [], None
                    lp.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in lp.blocks:
                            lp.blocks.add(x)
                            st.extend(self.pred[x])
        for i, h in enumerate(sorted(self.loops, key=lambda h: self.rpo[h])):
            self.loops[h].id = i
        # innermost loop containing each block
        self.inner = {}
        for h, lp in sorted(self.loops.items(), key=lambda kv: -len(kv[1].blocks)):
            for b in lp.blocks:
                self.inner[b] = lp


def base_name(dem):
    """'ns::Cls::fn(args) const' -> 'ns::Cls::fn' (template arguments of the last components kept)."""
    depth, i = 0, 0
    s = dem
    if s.startswith('operator'):
        pass
    # strip return type for templates: 'T ns::f<..>(..)'
    # find the '(' opening the parameter list: last top-level '(' matching the end
    end = s.rfind(')')
    if end < 0:
        return s
    d = 0
    for j in range(end, -1, -1):
        if s[j] == ')':
            d += 1
        elif s[j] == '(':
            d -= 1
            if d == 0:
                s = s[:j]
                break
    # drop a leading return type (outside <>)
    d, cut = 0, 0
    if 'operator' not in s:
        for j, c in enumerate(s):
            if c in '<(':
                d += 1
            elif c in '>)':
                d -= 1
            elif c == ' ' and d == 0:
                cut = j + 1
    else:
        k = s.find('operator')
        for j, c in enumerate(s[:k]):
            if c in '<(':
                d += 1
            elif c in '>)':
                d -= 1
            elif c == ' ' and d == 0:
                cut = j + 1
    return s[cut:]


class Program:
    def __init__(self, sources, workdir, extra=(), passes=PASSES):
        os.makedirs(workdir, exist_ok=True)
        tool()
        self.sources = list(sources)
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(lambda s: load_tu(s, workdir, extra, passes), sources))
        self.funcs, self.decls, self.globals, self.types = {}, {}, {}, {}
        self.bydem, self.bybase = {}, {}
        for ti, m in enumerate(mods):
            loc = {}
            for n, d in m['functions'].items():
                if d['local']:
                    loc[n] = f'{n}@{ti}'
            for n, g in m['globals'].items():
                if g['local']:
                    loc[n] = f'{n}@{ti}'
            if loc:
                self._rename(m, loc)
            for n, d in m['functions'].items():
                nn = loc.get(n, n)
                if 'blocks' in d:
                    if nn not in self.funcs:
                        f = self.funcs[nn] = Func(nn, d, ti)
                        self.bydem.setdefault(f.dem, f)
                        self.bybase.setdefault(base_name(f.dem), []).append(f)
                else:
                    self.decls[nn] = d
            for n, g in m['globals'].items():
                nn = loc.get(n, n)
                if nn not in self.globals or 'init' in g:
                    self.globals[nn] = g
            for n, t in m['types'].items():
                self.types.setdefault(n, t)

    def readonly(self, name):
        """internal global that no instruction of the program writes or lets escape: its value is the initialiser"""
        if not hasattr(self, '_ro'):
            self._ro = {}
        if name not in self._ro:
            self._ro[name] = self._readonly(name)
        return self._ro[name]

    def _readonly(self, name):
        g = self.globals.get(name)
        if not g or 'init' not in g or not g.get('local'):
            return False

        def mentions(x):
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == 'g' and x[1] == name:
                    return True
                return any(mentions(y) for y in x if isinstance(y, (list, dict)))
            if isinstance(x, dict):
                return any(mentions(y) for y in x.values() if isinstance(y, (list, dict)))
            return False
        for n, h in self.globals.items():
            if n != name and 'init' in h and mentions(h['init']):
                return False
        for f in self.funcs.values():
            derived = set()
            for b in f.order:
                for (op, res, ty, line, nm, x) in f.blocks[b]:
                    hit = mentions(x) or self._usesreg(x, derived)
                    if not hit:
                        continue
                    if op == 'getelementptr':
                        if res in derived or not (mentions(x[0]) or self._usesreg(x[0], derived)):
                            continue
                        derived.add(res)
                    elif op == 'load' or op == 'icmp':
                        pass
                    else:
                        return False
        return True

    def _usesreg(self, x, regs):
        if not regs:
            return False
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'v' and x[1] in regs:
                return True
            return any(self._usesreg(y, regs) for y in x if isinstance(y, (list, dict)))
        if isinstance(x, dict):
            return any(self._usesreg(y, regs) for y in x.values() if isinstance(y, (list, dict)))
        return False

    def _rename(self, m, loc):
        def walk(x):
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str) and x[1] in loc:
                    x[1] = loc[x[1]]
                for y in x:
                    if isinstance(y, (list, dict)):
                        walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    if isinstance(y, (list, dict)):
                        walk(y)
        for d in m['functions'].values():
            for b in d.get('blocks', ()):
                walk(b[1])
        for g in m['globals'].values():
            if 'init' in g:
                h = [g['init']]
                walk(h)
                g['init'] = h[0]

    def dem(self, name):
        f = self.funcs.get(name)
        if f:
            return f.dem
        d = self.decls.get(name)
        return d['dem'] if d else name

    def find(self, base, sig=None):
        """Function by qualified name (and optional substring of the demangled signature)."""
        l = [f for f in self.bybase.get(base, []) if sig is None or sig in f.dem]
        # complete-object constructors have twin C1/C2 definitions
        if len(l) > 1 and sig is None:
            l2 = [f for f in l if re.search(r'C2E|D2E', f.name)]
            if len(l2) == 1:
                return l2[0]
        return l[0] if l else None

    def fields(self, ty):
        """flattened {field: (offset, size, typename)} including bases."""
        out = {}

        def rec(t, base):
            d = self.types.get(t)
            if not d or 'fields' not in d:
                return
            for (n, o, s, tn, bit, bits) in d['fields']:
                if n == '<base>':
                    rec(tn, base + o)
                else:
                    out.setdefault(n, (base + o, s, tn))
        rec(ty, 0)
        return out

    def fieldpath(self, ty, path):
        off, t = 0, ty
        for p in path.split('.'):
            f = self.fields(t).get(p)
            if f is None:
                raise KeyError(f'{ty}.{path}: no member {p} in {t}')
            off += f[0]
            size, t = f[1], f[2]
        return off, size, t
