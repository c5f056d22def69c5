"""Runs the check of one property: builds the program from /repo's current sources, generates and discharges the
obligations of every unit (function under contract), replays refuted ones natively, writes the evidence file."""
import sys, os, json, time, tempfile, shutil, pickle, select, signal, traceback, subprocess, re, importlib.util, hashlib
import ir
from ir import BuildError, Program
import vc
from vc import *
import solve

VERIF = ir.VERIF


class Unit:
    def __init__(self, name, fn, body, opts):
        self.name, self.fn, self.body, self.opts = name, fn, body, opts


class Property:
    def __init__(self, pid, sources):
        self.id, self.sources, self.units, self.natives, self.assumptions = pid, sources, [], [], []
        self.notes = ''

    def unit(self, name, fn=None, **opts):
        def d(body):
            self.units.append(Unit(name, fn, body, opts))
            return body
        return d

    def native(self, driver, sources, always=False, label='', bound='', flags=(), seconds=20, sanitize=True, link=()):
        self.natives.append(dict(driver=driver, sources=sources, always=always, label=label, bound=bound, flags=list(flags),
                                 seconds=seconds, sanitize=sanitize, link=list(link)))


class Region_dummy:
    id, name = -1, 'none'


class Ctx:
    """what a unit body works with"""

    def __init__(self, prog, opts, mode=None):
        cfg = Config()
        cfg.kinds = set(opts.get('kinds', ('mem', 'div', 'assert')))
        for k in ('merge', 'max_depth', 'prove_timeout', 'max_iter'):
            if k in opts:
                setattr(cfg, k, opts[k])
        if mode:
            cfg.unroll = mode
        self.prog, self.ex, self.st, self.mode = prog, Exec(prog, cfg), State(), mode
        self.functions, self.covers = [], []
        self.lemmas = 0

    # inputs
    def cstr(self, name, maxlen=None):
        """readable NUL-terminated C string in a buffer of arbitrary size >= len+1"""
        ex = self.ex
        n, size = z3.BitVec(name + '.len', 64), z3.BitVec(name + '.size', 64)
        r = ex.buf(name, size)
        a = ex.seg_array(self.st, r, r.segs[0])
        self.assume(z3.ULT(n, size), z3.ULT(size, 1 << 40), z3.Select(a, n) == 0,
                    Forall(lambda k: Implies(z3.ULT(k, n), z3.Select(a, k) != 0), roots_of(a)))
        if maxlen is not None:
            self.assume(z3.ULE(n, maxlen))
        self.st.zeros[r.id] = (n,)
        r.len = n
        return r

    def text(self, s):
        """pointer to a constant C string"""
        b = s.encode('latin-1') + b'\0'
        r = self.ex.new_region(f'"{s}"', len(b), [Seg(0, len(b), 8)], const=True)
        r.data[0] = list(b)
        return Ptr(r, 0)

    def buffer(self, name, size=None, w=8):
        if size is None:
            size = z3.BitVec(name + '.size', 64)
            self.assume(z3.ULT(size, 1 << 40))
        r = self.ex.buf(name, size, w)
        return r

    def obj(self, ty, name=None):
        return self.ex.obj(ty, name)

    def ptrbox(self, name, p):
        """a pointer variable (a T** argument) holding p"""
        r = self.ex.new_region(name, 8, [])
        r.ptr_init[0] = p
        return r

    def unbox(self, r, st, seg=None):
        p = int_to_ptr(self.ex.load(st, Ptr(r, 0), 'ptr', 8))
        return p

    def family(self, ty, name=None):
        return self.ex.family(ty, name)

    def vector(self, obj, path, elem, name=None, ty=None):
        """make the std::vector member obj.path hold count elements (an element width in bits, or a Family: pointers to its members);
        returns (region of the elements, count)"""
        off = self.ex.off(ty or obj.type, path) if path else 0
        name = name or path
        n = z3.BitVec(name + '.count', 64)
        w = elem if isinstance(elem, int) else 64
        self.assume(z3.ULT(n, 1 << 31))
        size = n * (w // 8)
        r = self.ex.buf(name, size, elem)
        obj.ptr_init[off], obj.ptr_init[off + 8], obj.ptr_init[off + 16] = Ptr(r, 0), Ptr(r, size), Ptr(r, size)
        return r, n

    def var(self, name, w=64):
        return z3.BitVec(name, w)

    def assume(self, *fs):
        for f in fs:
            self.ex.assume(None, f)

    def arr(self, region, st=None, seg=0):
        return self.ex.seg_array(st or self.st, region, region.segs[seg])

    def get(self, region, path, st=None, ty=None):
        return self.ex.rd(st or self.st, region, ty or (region.fam.type if isinstance(region, Elem) else region.type), path)

    def put(self, region, path, v, st=None, ty=None):
        self.ex.wr(st or self.st, region, ty or (region.fam.type if isinstance(region, Elem) else region.type), path, v)

    def contract(self, name, handler, label=None):
        def h(ex, st, a, c):
            ex.used_contracts.add(label or name)
            return handler(ex, st, a, c)
        h.label = f'contract: {label or name}'
        self.ex.contracts[name] = h

    def run(self, fn, args, st=None, sig=None, paths=False):
        """execute the real body of fn; returns (state, return value) merged over all paths, or the list of them"""
        f = self.prog.find(fn, sig)
        if f is None:
            raise Inconclusive(f'function {fn} not found in the current sources')
        if fn not in self.functions:
            self.functions.append(fn)
        st = (st or self.st).copy()
        outs = self.ex.inline(None, st, f, args)
        if paths:
            return outs
        if not outs:
            return None, None
        s, v = self.ex.merge_rets(outs) if len(outs) > 1 else outs[0]
        return s, v

    def ensure(self, st, name, goal):
        self.ex.oblige(st, 'post', name, goal, where='postcondition')

    def lemma(self, name, goal, facts=()):
        st = State()
        for f in facts:
            st.pc.append(B(f))
        self.ex.oblige(st, 'post', name, goal, where='lemma')

    def cover(self, st, name, cond=True):
        """vacuity guard: the situation is reachable under the preconditions"""
        self.covers.append((name, st.pcf(), cond, len(self.ex.facts)))

    def text_ids(self, region):
        """ghost identities of the strings in a buffer: two C strings are equal iff their identities are; literals by their text"""
        if not hasattr(self, '_ids'):
            self._ids, self._lits = {}, {'': 0}
        if region.id not in self._ids:
            self._ids[region.id] = z3.Array(f'text({region.name})', z3.BitVecSort(64), z3.BitVecSort(64))
        return self._ids[region.id]

    def text_id(self, p, st=None):
        from models import const_str
        self.text_ids(Region_dummy)
        r = None
        for g, reg, off, _ in reversed(int_to_ptr(p).alts):
            if reg is NULL:
                continue
            t = const_str(self.ex, st or self.st, Ptr([(True, reg, off, None)]))
            if t is not None:
                t = t.decode('latin-1')
                if getattr(self, '_fold', False):
                    t = t.lower()
                v = z3.BitVecVal(self._lits.setdefault(t, len(self._lits)), 64)
            else:
                v = z3.Select(self.text_ids(reg), bv(off, 64))
            r = v if r is None else z3.If(B(g), v, r)
        if r is None:
            raise Inconclusive('text of a null pointer')
        return r

    def compares_text(self, *fns):
        """contract of strcmp and its like: 0 iff the texts are equal (case is part of the identity of a text)"""
        self._fold = all('case' in f for f in fns)

        def h(ex, st, a, i):
            r = ex.fresh('compared', 32)
            ex.assume(None, (r == 0) == (self.text_id(a[0], st) == self.text_id(a[1], st)))
            return r
        for f in fns or ('strcmp',):
            self.contract(f, h)

    def local_vector(self, ty, elem, name):
        """contract of std::vector<ty>::reserve / push_back: an array without bound (the memory management of the standard library is
        trusted); the one vector of this type the function builds"""
        size = z3.BitVec(name + '.capacity', 64)
        self.assume(z3.ULT(size, 1 << 40), z3.UGT(size, 1 << 36))
        buf = self.ex.buf(name, size, elem)
        w = elem // 8 if isinstance(elem, int) else 8
        t = f'std::vector<{ty}, std::allocator<{ty}>>::'

        def start(ex, st, v):
            b = int_to_ptr(ex.load(st, v, 'ptr', 8))
            if all(a[1].kind == 'null' for a in b.alts):
                for k, o in enumerate((0, 0, size)):
                    ex.store(st, Ptr([(g, r, addoff(f, 8 * k), None) for g, r, f, _ in v.alts]), Ptr(buf, o), 'ptr', 8)

        def reserve(ex, st, a, i):
            start(ex, st, int_to_ptr(a[0]))

        def push(ex, st, a, i):
            v = int_to_ptr(a[0])
            start(ex, st, v)
            at = Ptr([(g, r, addoff(f, 8), None) for g, r, f, _ in v.alts])
            e = int_to_ptr(ex.load(st, at, 'ptr', 8))
            x = ex.load(st, int_to_ptr(a[1]), 'ptr' if isinstance(elem, Family) else f'i{elem}', w)
            self.push_hook(st, x) if self.push_hook else None
            ex.store(st, e, x, 'ptr' if isinstance(elem, Family) else f'i{elem}', w)
            ex.store(st, at, Ptr([(g, r, addoff(f, w), s) for g, r, f, s in e.alts]), 'ptr', 8)
        for n in ('reserve',):
            self.contract(t + n, reserve)
        self.contract(t + 'push_back', push, label=f'vector<{ty}>')
        self.contract(f'std::_Vector_base<{ty}, std::allocator<{ty}>>::~_Vector_base', lambda ex, st, a, i: None)
        return buf

    push_hook = None

    def deque(self, T, count, element):
        """contract of std::deque<T> (or, T = 'unique_ptr X', of a deque of owning pointers, also through the Raw iterators of Container.h):
        a sequence; count(ex, st, container) elements, element(ex, st, container, index) -> pointer to the element (to X for owning pointers)"""
        own = re.match(r'unique_ptr (.*)', T)
        X = own.group(1) if own else T
        E = f'std::unique_ptr<{X}, std::default_delete<{X}>>' if own else T
        e, q = re.escape(E), re.escape(X)
        idx = lambda ex, st, p: bv(ex.load(st, p, 'i64', 8), 64)
        at8 = lambda p: Ptr([(g, r, addoff(o, 8), s) for g, r, o, s in p.alts])

        def differ(ex, st, a):
            x, y = idx(ex, st, int_to_ptr(a[0])), idx(ex, st, int_to_ptr(a[1]))
            r = z3.simplify(x != y)
            return True if z3.is_true(r) else False if z3.is_false(r) else x != y

        def start(ex, st, it, container, i):
            it = int_to_ptr(it)
            ex.store(st, it, i, 'i64', 8)
            ex.store(st, at8(it), int_to_ptr(container), 'ptr', 8)
            return None

        def elem(ex, st, a, i):
            it = int_to_ptr(a[0])
            return element(ex, st, int_to_ptr(ex.load(st, at8(it), 'ptr', 8)), idx(ex, st, it))

        def nxt(ex, st, a, i):
            ex.store(st, int_to_ptr(a[0]), idx(ex, st, int_to_ptr(a[0])) + 1, 'i64', 8)
            return a[0]

        def rawnxt(ex, st, a, i):
            start(ex, st, a[0], ex.load(st, at8(int_to_ptr(a[1])), 'ptr', 8), idx(ex, st, int_to_ptr(a[1])))
            ex.store(st, int_to_ptr(a[1]), idx(ex, st, int_to_ptr(a[1])) + 1, 'i64', 8)

        def deref(ex, st, a, i):
            if not own:
                return elem(ex, st, a, i)
            r = self.ex.new_region('owner', 8, [])
            r.ptr_init[0] = elem(ex, st, a, i)
            return Ptr(r, 0)
        it = rf'(?:std::_Deque_iterator<{e}, {e}&, {e}\*>|RawDequeIterator<{q}>)'
        pats = [
            (rf'^std::deque<{e}, std::allocator<{e}>>::begin\(', lambda ex, st, a, i: start(ex, st, a[0], a[1], 0)),
            (rf'^std::deque<{e}, std::allocator<{e}>>::end\(', lambda ex, st, a, i: start(ex, st, a[0], a[1], count(ex, st, int_to_ptr(a[1])))),
            (rf'^std::deque<{e}, std::allocator<{e}>>::size\(', lambda ex, st, a, i: count(ex, st, int_to_ptr(a[0]))),
            (rf'^std::deque<{e}, std::allocator<{e}>>::empty\(', lambda ex, st, a, i: count(ex, st, int_to_ptr(a[0])) == 0),
            (rf'(?:^|> )begin<{q}>\(', lambda ex, st, a, i: start(ex, st, a[0], a[1], 0)),
            (rf'(?:^|> )end<{q}>\(', lambda ex, st, a, i: start(ex, st, a[0], a[1], count(ex, st, int_to_ptr(a[1])))),
            (rf'operator!=(?:<{q}>)?\({it}', lambda ex, st, a, i: differ(ex, st, a)),
            (rf'operator==(?:<{q}>)?\({it}', lambda ex, st, a, i: Not(differ(ex, st, a))),
            (rf'operator\*<{q}>\(RawDequeIterator', elem),
            (rf'^std::_Deque_iterator<{e}, {e}&, {e}\*>::operator\*', deref),
            (rf'^std::_Deque_iterator<{e}, {e}&, {e}\*>::operator\+\+\(\)', nxt),
            (rf'operator\+\+<{q}>\(RawDequeIterator', rawnxt),
            (rf'^std::deque<{e}, std::allocator<{e}>>::at\(', lambda ex, st, a, i: at(ex, st, a)),
            (rf'^std::deque<{e}, std::allocator<{e}>>::operator\[\]\(', lambda ex, st, a, i: at(ex, st, a)),
        ]

        def at(ex, st, a):
            p = element(ex, st, int_to_ptr(a[0]), bv(a[1], 64))
            if own:
                r = self.ex.new_region('owner', 8, [])
                r.ptr_init[0] = p
                return Ptr(r, 0)
            return p
        for pat, h in pats:
            def hh(ex, st, a, i, h=h):
                ex.used_contracts.add(f'std::deque<{X}>')
                return h(ex, st, a, i)
            self.ex.patterns.append((re.compile(pat), hh))

    def step_contract(self, fn, region, step, name, ncur=2, names=None):
        """contract of one iteration of the (outermost) loop of fn over the character buffer `region`:
        step(get, cur) -> list of (condition, new cursor list, {offset: byte written}); get(i) reads the buffer as it
        was at the start of the iteration.  The cursors are found among the loop's own variables (whatever their
        names); the obligations are discharged for every reachable iteration."""
        import itertools as it
        self.step_seen = getattr(self, 'step_seen', {})
        self.step_seen.setdefault(name, 0)
        def hook(ex, fr, loop, view, backs, exits):
            if base_name(fr.fn.dem) != fn or not any(r is region for r in self._ptr_regions(view)):
                return
            cands = view.ptrs(region)
            if len(cands) < ncur:
                return
            a0 = self.arr(region, view.st)
            get = lambda i: z3.Select(a0, bv(i, 64))
            best = None
            for combo in it.permutations(range(len(cands)), ncur):
                goals = []
                for (_, (pr, t), b) in backs:
                    try:
                        nv = []
                        for i in combo:
                            p = int_to_ptr(cands[i][0].get(b))
                            if len(p.alts) != 1 or p.alts[0][1] is not region:
                                raise Inconclusive('cursor left the buffer')
                            nv.append(bv(p.alts[0][2], 64))
                    except (Inconclusive, KeyError):
                        goals = None
                        break
                    ab = self.arr(region, b)
                    cur = [bv(cands[i][1], 64) for i in combo]
                    alts = step(get, *cur)
                    for (cnd, new, writes) in alts:
                        g = [nv[k] == bv(new[k], 64) for k in range(ncur)]
                        g += [z3.Select(ab, bv(o, 64)) == bv(v, 8) for o, v in writes.items()]
                        goals.append((b.pcf(), cnd, And(g)))
                    if not alts:
                        goals.append((b.pcf(), True, False))
                    goals.append((b.pcf(), Not(Or([x[0] for x in alts])), False))
                    # frame: everything else in the buffer keeps its value
                    allw = [o for x in alts for o in x[2]]
                    goals.append((b.pcf(), True, Forall(lambda k, ab=ab, allw=allw: Or(z3.Select(ab, k) == z3.Select(a0, k), Or([k == bv(o, 64) for o in allw])), roots_of(ab))))
                if goals is None:
                    continue
                ok = 0
                for (pc, cnd, g) in goals:
                    if ex.prove(And(pc, cnd), g, 8000)[0] == 'proved':
                        ok += 1
                if best is None or ok > best[0]:
                    best = (ok, goals)
                if ok == len(goals):
                    break
            if best is None:
                return
            self.step_seen[name] += 1
            for k, (pc, cnd, g) in enumerate(best[1]):
                o = ex._obl(f'{name}: iteration case {k}', 'post', f'loop of {fn}', And(pc, cnd), g)
                ex.obls.append(o)
        self.ex.loop_hooks.append(hook)

    def _ptr_regions(self, view):
        for v in view.vars:
            if v.ptr:
                try:
                    for a in int_to_ptr(view.cur(v)).alts:
                        yield a[1]
                except (Inconclusive, KeyError):
                    pass

    def step_check(self):
        for k, v in getattr(self, 'step_seen', {}).items():
            if not v and self.mode is None:
                raise Inconclusive(f'{k}: no loop with the expected cursors in the current source')

    @staticmethod
    def truth(v):
        """IR i1/i8 bool to z3 Bool"""
        if isinstance(v, bool) or z3.is_bool(v):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        return z3.Extract(0, 0, v) == 1


def run_unit(prog, u, tier, mode=None):
    t0 = time.time()
    ctx = Ctx(prog, u.opts, mode)
    res = {'name': u.name, 'fn': u.fn, 'status': None, 'obligations': [], 'why': '', 'functions': [], 'models': [], 'inlined': [],
           'assumptions': [], 'loops': [], 'covers': [], 'backends': {}, 'solver_s': 0.0}
    try:
        u.body(ctx)
        ctx.step_check()
        ex = ctx.ex
        if not ex.obls:
            raise Inconclusive('no obligations generated')
        # vacuity: at least the final state must be reachable
        for (name, pc, cond, nf) in ctx.covers:
            q, used = solve.query(ex.facts[:nf], And(pc, cond), False)
            r, s, dt = solve.check(q, 10000)
            res['covers'].append((name, str(r)))
            res['solver_s'] += dt
            if r == z3.unsat:
                ex.obls.append(_fail(ex, f'vacuous: {name} unreachable'))
        timeout = u.opts.get('timeout', 30000) * (4 if tier == 'thorough' else 1)
        solve.discharge(ex, timeout=timeout, jobs=u.opts.get('jobs', 4))
        for o in ex.obls:
            res['obligations'].append((o.kind, o.name, o.where, o.status, round(o.time, 3), o.backend))
            res['solver_s'] += o.time or 0
            res['backends'][o.backend or 'z3'] = res['backends'].get(o.backend or 'z3', 0) + (o.status == 'proved')
        bad = [o for o in ex.obls if o.status != 'proved']
        res['failed'] = [(o.kind, o.name, o.where, o.fn, o.status, o.model) for o in bad][:20]
        res['status'] = 'proved' if not bad else ('refuted' if any(o.status == 'refuted' for o in bad) else 'unknown')
        res['quantified'] = any(isinstance(f, Forall) for f in ex.facts)
        res['loops'] = list(ex.loops_info.values())
        res['models'] = sorted(ex.used_models)
        res['contracts'] = sorted(ex.used_contracts)
        res['inlined'] = sorted(ex.inlined)
        res['assumptions'] = sorted(ex.assumptions)
    except Inconclusive as e:
        res['status'], res['why'] = 'inconclusive', str(e)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, z3.Z3Exception, RecursionError, AssertionError) as e:
        res['status'], res['why'] = 'inconclusive', f'{type(e).__name__}: {e}'
        res['trace'] = traceback.format_exc()[-3000:]
    res['functions'] = ctx.functions
    res['wall'] = round(time.time() - t0, 2)
    return res


def _fail(ex, name):
    o = ex._obl(name, 'cover', 'vacuity guard', True, z3.BoolVal(False))
    return o


def parallel(jobs, njobs, limit):
    """jobs: list of (key, callable); each in a forked child; returns {key: result}"""
    out, run, queue = {}, {}, list(jobs)
    while queue or run:
        while queue and len(run) < njobs:
            key, fn = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    res = fn()
                except BaseException as e:
                    res = {'status': 'inconclusive', 'why': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()[-3000:]}
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(res))
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (key, pid, time.time(), [])
        rl, _, _ = select.select(list(run), [], [], 1.0)
        for r in rl:
            key, pid, t, buf = run[r]
            d = os.read(r, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[key] = pickle.loads(b''.join(buf))
            except Exception:
                out[key] = {'status': 'inconclusive', 'why': 'worker died (memory or time limit)'}
            del run[r]
        for r in list(run):
            key, pid, t, buf = run[r]
            if time.time() - t > limit:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                out[key] = {'status': 'inconclusive', 'why': f'time limit {limit}s'}
                del run[r]
    return out


def build_native(n, work):
    """compile the driver and the listed real sources; returns executable path"""
    flags = ir.inc_flags() + ['-I' + os.path.join(VERIF, 'native'), '-O1', '-g', '-ffunction-sections', '-fdata-sections', '-fno-access-control', '-pthread'] + n['flags']
    if n['sanitize']:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment']
    objs, jobs = [], []
    h = hashlib.md5((n['driver'] + str(n['flags'])).encode()).hexdigest()[:8]
    srcs = [os.path.join(VERIF, 'native', n['driver'])] + [s if os.path.isabs(s) else os.path.join(ir.REPO, s) for s in n['sources']]
    for i, s in enumerate(srcs):
        o = os.path.join(work, f'n{h}_{i}.o')
        objs.append(o)
        sf = []
        if 'yencode' in s:
            if 'Sse2' in s:
                sf = ['-msse2']
            elif 'Ssse3' in s:
                sf = ['-mssse3']
            elif 'Pclmul' in s:
                sf = ['-msse4.1', '-mpclmul']
        jobs.append(['g++'] + flags + sf + ['-c', s, '-o', o])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as tp:
        list(tp.map(ir.run, jobs))
    exe = os.path.join(work, f'native_{h}')
    ir.run(['g++', '-no-pie', '-pthread', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition'] + (['-fsanitize=address,undefined'] if n['sanitize'] else []) + objs + ['-o', exe] + n['link'])
    return exe


def run_native(n, work, seed, seconds, replay):
    """-> ('ok', cases) / ('fail', text) / ('error', why)"""
    try:
        exe = build_native(n, work)
    except (BuildError, OSError) as e:
        return 'error', str(e)[:600]
    scratch = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', VERIF_NATIVE_SCRATCH=scratch)
    try:
        p = subprocess.run([exe, str(seed), str(seconds), replay + '.input'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds + 60, cwd=scratch, env=env)
        out, rc = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') + '\nHANG: no answer within the time limit', 124
    m = re.search(r'^CASES (\d+)', out, re.M)
    if rc == 0:
        return 'ok', int(m.group(1)) if m else 0
    if rc == 3:
        return 'error', out[-500:]
    inp = ''
    if os.path.exists(replay + '.input'):
        inp = open(replay + '.input', errors='replace').read()
    return 'fail', f'driver: native/{n["driver"]} (seed {seed}); exit {rc}\n--- failing input\n{inp}\n--- output\n{out[-4000:]}'


def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k.get('property') == pid]


def load(pid):
    path = os.path.join(VERIF, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    spec.loader.exec_module(m)
    return m.P


def main(pid, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = load(pid)
    work = tempfile.mkdtemp(prefix=f'verif-{pid}-', dir=os.environ.get('TMPDIR', '/tmp'))
    os.environ['VERIF_SCRATCH'] = work
    repdir = os.path.join(VERIF, 'replays')
    os.makedirs(repdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(repdir, f'{pid}-{os.getpid()}.txt')
    violations, results, native_log = [], {}, []
    fnd = known(pid)
    try:
        build_err = None
        prog = None
        try:
            if P.sources:
                prog = Program(P.sources, os.path.join(work, 'ir'))
        except BuildError as e:
            build_err = str(e)
        units = [u for u in P.units if only is None or any(o in u.name for o in only)]
        if prog is not None:
            results = parallel([(u.name, (lambda u=u: run_unit(prog, u, tier))) for u in units], 6, getattr(P, 'limit', 400) if tier == 'quick' else 1500)
        for u in units:
            r = results.setdefault(u.name, {'status': 'inconclusive', 'why': build_err or 'not run'})
            r.setdefault('obligations', [])
            r.setdefault('functions', [u.fn] if u.fn else [])
            # obligations listed as known findings
            for k in fnd:
                if k.get('unit') == u.name:
                    r['known'] = [f for f in r.get('failed', []) if any(re.search(x, f'{f[1]} @ {f[2]}') for x in k['obligations'])]
                    r['failed'] = [f for f in r.get('failed', []) if f not in r['known']]
                    if r['known'] and not r['failed'] and r['status'] in ('refuted', 'unknown'):
                        r['status'] = 'known'
        bad = [u for u in units if results[u.name]['status'] not in ('proved', 'known')]
        # native replay / bounded stand-ins
        budget = 1 if tier == 'quick' else 6
        failing_native = None
        for n in P.natives:
            if not (n['always'] or bad or build_err or tier == 'thorough'):
                continue
            st, info = run_native(n, work, seed, n['seconds'] * budget * (2 if bad else 1), replay)
            native_log.append((n['label'] or n['driver'], n['bound'], st, info if st != 'fail' else 'failing input found'))
            if st == 'fail' and failing_native is None:
                failing_native = info
        # precise second look at refuted units: every loop unrolled, no invented invariants
        confirmed, cleared = [], []
        if bad and prog is not None and failing_native is None:
            ref = [u for u in bad if results[u.name]['status'] == 'refuted']
            again = parallel([(u.name, (lambda u=u: run_unit(prog, u, 'quick', mode=u.opts.get('unroll', 4)))) for u in ref if results[u.name].get('loops')], 6, 150)
            for u in ref:
                r = again.get(u.name) if results[u.name].get('loops') else results[u.name]
                if r and r.get('status') == 'proved':
                    # refuted only with inferred invariants; every loop unrolled to the bound proves it: proof lost, no violation shown
                    cleared.append(u.name)
                    continue
                if not (r and r.get('status') == 'refuted'):
                    r = results[u.name]
                fl = [f for f in r['failed'] if f[4] == 'refuted' and f[0] != 'cover' and not any(k.get('unit') == u.name and any(re.search(x, f'{f[1]} @ {f[2]}') for x in k['obligations']) for k in fnd)]
                if fl:
                    confirmed.append((u, fl))
        if failing_native is not None:
            with open(replay, 'w') as f:
                f.write(f'property {pid}\n')
                for u in bad:
                    for x in results[u.name].get('failed', [])[:5]:
                        f.write(f'failed obligation: [{x[0]}] {x[1]} at {x[2]} (unit {u.name}): {x[4]}\n')
                f.write(failing_native + '\n')
            violations.append(f'VIOLATION property={pid} replay={replay}')
        elif confirmed:
            with open(replay, 'w') as f:
                f.write(f'property {pid}\n')
                for u, fl in confirmed:
                    for x in fl[:6]:
                        f.write(f'failed obligation: [{x[0]}] {x[1]} at {x[2]} in {x[3]} (unit {u.name})\n')
                        for k, v in sorted((x[5] or {}).items())[:40]:
                            f.write(f'    counterexample {k} = {v}\n')
            violations.append(f'VIOLATION property={pid} replay={replay} no-failing-input-found')
        wall = time.time() - t0
        tot = sum(len(r['obligations']) for r in results.values())
        dis = sum(1 for r in results.values() for o in r['obligations'] if o[3] == 'proved')
        undecided = [f"{u.name}: {results[u.name]['status']} ({results[u.name].get('why') or '; '.join(f'{x[1]} @ {x[2]}' for x in results[u.name].get('failed', [])[:3])})" for u in bad]
        be = {}
        for r in results.values():
            for k, v in r.get('backends', {}).items():
                be[k] = be.get(k, 0) + v
        models = sorted({m for r in results.values() for m in r.get('models', [])})
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
              'coverage': {
                  'obligations': tot + sum(1 for u in bad if not results[u.name]['obligations']), 'discharged': dis,
                  'checker_cmd': f'/verif/check {pid} --tier {tier} (clang-18 -> LLVM IR of /repo -> engine/vc.py -> z3 {z3.get_version_string()}, cvc5 1.1.2, z3-new)',
                  'trusted_base': ['clang 18 front end and opt passes ' + ir.PASSES, 'engine/irdump.cpp, engine/vc.py, engine/loops.py, engine/solve.py (VC generator)',
                                   'z3, cvc5'] + [m for m in models if not m.startswith('contract: ')],
                  'functions_under_contract': sorted({f for r in results.values() for f in r.get('functions', []) if f}),
                  'callee_contracts_used': sorted({m for r in results.values() for m in r.get('contracts', [])}),
                  'inlined_callees': sorted({m for r in results.values() for m in r.get('inlined', [])})[:200],
                  'units': {k: {'status': r['status'], 'obligations': len(r['obligations']), 'discharged': sum(o[3] == 'proved' for o in r['obligations']),
                                'wall_s': r.get('wall'), 'covers': r.get('covers'), 'loops': [{'fn': l['fn'], 'invariants': l['invariants']} for l in r.get('loops', [])]} for k, r in results.items()},
                  'discharged_by': be, 'solver_s': round(sum(r.get('solver_s', 0) for r in results.values()), 2),
                  'undecided': undecided,
                  'bounded_stand_ins': [{'what': a, 'bound': b, 'result': c, 'cases': d if isinstance(d, int) else str(d)[:300]} for a, b, c, d in native_log],
                  'samples': [f'{o[0]}: {o[1]} @ {o[2]} -> {o[3]} ({o[5]}, {o[4]}s)' for r in results.values() for o in r['obligations'] if o[0] == 'post'][:12]},
              'assumptions': sorted(set(P.assumptions) | {m for r in results.values() for m in r.get('assumptions', [])} |
                                    {'memory model: distinct input objects do not alias; C++ exceptions are not modelled; single-threaded execution of each function (locks are no-ops)'}),
              'wall_s': round(wall, 2), 'violations': len(violations)}
        if only is None:
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        for u in units:
            r = results[u.name]
            n, d = len(r['obligations']), sum(o[3] == 'proved' for o in r['obligations'])
            print(f"[{pid}] {u.name}: {r['status']} {d}/{n} obligations, {r.get('wall', 0)}s" + (f" - {r['why']}" if r.get('why') else ''))
            if verbose:
                print('      loops', [(l['fn'], l['invariants'], l.get('names')) for l in r.get('loops', [])])
            for x in r.get('failed', [])[:8]:
                print(f"      not proved: [{x[0]}] {x[1]} at {x[2]} in {x[3]}: {x[4]}")
                if verbose and x[5]:
                    print('         ', {k: v[:80] for k, v in list(x[5].items())[:25]})
            if verbose and r.get('trace'):
                print(r['trace'])
        for a, b, c, d in native_log:
            print(f'[{pid}] bounded: {a} [{b}]: {c} {d if not isinstance(d, str) else d[:300]}')
        for k in fnd:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        if undecided and not violations:
            print(f'[{pid}] undecided (not counted as proved): ' + ' | '.join(undecided)[:1500])
        for v in violations:
            print(v)
        print(f'[{pid}] {dis}/{tot} obligations discharged in {wall:.1f}s')
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
