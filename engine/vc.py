"""Verification-condition generator: modular symbolic execution of LLVM IR (see ir.py) with contracts at calls,
invariants at loops, exact machine arithmetic (bit-vectors) and a region memory model."""
import heapq, itertools, re, time, os, sys
import z3
from ir import base_name

sys.setrecursionlimit(20000)
BV64 = z3.BitVecSort(64)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Inconclusive(Exception):
    """The verifier cannot decide (unsupported construct, missing model, irregular shape)."""


_ctr = itertools.count(1)


def uid():
    return next(_ctr)


# ---------------------------------------------------------------- scalar values: python int (mod 2^w) or z3 BitVec
def M(w):
    return (1 << w) - 1


def bv(x, w):
    return z3.BitVecVal(x & M(w), w) if isinstance(x, int) else x


def sgn(x, w):
    x &= M(w)
    return x - (1 << w) if x >> (w - 1) else x


def fold(e):
    """z3 BV expr -> int if it is a numeral"""
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def isconst(x):
    return isinstance(x, int)


def B(x):
    """to z3 Bool"""
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    return x


def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            for y in x:
                if y is False or (y is not True and z3.is_false(y)):
                    return False
                if y is True or z3.is_true(y):
                    continue
                r.append(y)
            continue
        if x is False or (x is not True and z3.is_false(x)):
            return False
        if x is True or z3.is_true(x):
            continue
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        for y in (x if isinstance(x, (list, tuple)) else (x,)):
            if y is True or (y is not False and z3.is_true(y)):
                return True
            if y is False or z3.is_false(y):
                continue
            r.append(y)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if a is True or b is True:
        return b
    if a is False:
        return True
    return z3.Implies(B(a), B(b))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b and isinstance(a, bool) == isinstance(b, bool)
        return False
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or len(a.alts) != len(b.alts):
            return False
        return all(same(x[0], y[0]) and sameregion(x[1], y[1]) and same(x[2], y[2]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Undef,)) or isinstance(b, (Undef,)) or isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and a == b
    if not isinstance(a, z3.AstRef) or not isinstance(b, z3.AstRef):
        return a is b
    return a.eq(b)


class Undef:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


# ---------------------------------------------------------------- memory regions and pointers
class Seg:
    """contiguous array segment of a region; w = element width in bits (None: fixed by the first access), or a Family"""
    __slots__ = ('start', 'size', 'w')

    def __init__(self, start, size, w=None):
        self.start, self.size, self.w = start, size, w


class Region:
    fam = None

    def __init__(self, name, size, segs=(), fresh=False, type=None, const=False, kind='obj'):
        self.id, self.name, self.size, self.segs = uid(), name, size, list(segs)
        self.fresh, self.type, self.const, self.kind = fresh, type, const, kind
        self.cache = {}       # initial cells
        self.segcache = {}
        self.ptr_init = {}    # offset -> Ptr / callable(ex) for initial pointer cells
        self.int_init = {}    # offset -> value
        self.data = {}        # seg start -> python list (constant tables)
        self.base = None
        self.freed = False
        self.onload = None

    def __repr__(self):
        return f'<{self.name}>'

    def seg_at(self, off):
        for s in self.segs:
            if s.start <= off and (not isinstance(s.size, int) or off < s.start + s.size):
                return s
        for s in self.segs:
            if isinstance(s.size, int) and off == s.start + s.size:
                return s
        return None


class Family(Region):
    """Unbounded set of disjoint objects of one class, addressed by a 64-bit index (0 = null)."""

    def __init__(self, name, size, type=None):
        super().__init__(name, size, type=type, kind='fam')
        self.ptr_cells = {}  # off -> Family (pointer member to another family, 0 = null)
        self.ptr_fixed = {}  # off -> Ptr

    def at(self, idx):
        return Elem(self, idx)


class Elem:
    """one member of a family"""
    __slots__ = ('fam', 'idx')
    kind = 'elem'
    segs = ()
    const = False

    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    @property
    def size(self):
        return self.fam.size

    @property
    def name(self):
        return f'{self.fam.name}[{self.idx}]'

    @property
    def id(self):
        return self.fam.id

    def __repr__(self):
        return self.name


NULL = Region('null', 0, kind='null')


def sameregion(a, b):
    if a is b:
        return True
    if isinstance(a, Elem) and isinstance(b, Elem):
        return a.fam is b.fam and same(a.idx, b.idx)
    return False


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, region, off=0, seg=None):
        if isinstance(region, list):
            self.alts = region
        else:
            self.alts = [(True, region, off, seg)]

    def __repr__(self):
        return 'Ptr(' + '|'.join(f'{r}+{o}' for g, r, o, s in self.alts) + ')'


NULLPTR = Ptr(NULL, 0)


def addoff(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M(64)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return fold(z3.simplify(bv(a, 64) + bv(b, 64)))


def suboff(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & M(64)
    return fold(z3.simplify(bv(a, 64) - bv(b, 64)))


def ite(c, a, b, w=None):
    """merge two values under condition c"""
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not isinstance(a, Ptr):
            a = int_to_ptr(a)
        if not isinstance(b, Ptr):
            b = int_to_ptr(b)
        out = []
        bl = list(b.alts)
        for (g, r, o, s) in a.alts:
            for k, (g2, r2, o2, s2) in enumerate(bl):
                if sameregion(r, r2) and s is s2:
                    out.append((Or(And(c, g), And(Not(c), g2)) if not (g is True and g2 is True) else True, r, ite(c, o, o2, 64), s))
                    del bl[k]
                    break
            else:
                # same family, different index: merge by ite on the index
                for k, (g2, r2, o2, s2) in enumerate(bl):
                    if isinstance(r, Elem) and isinstance(r2, Elem) and r.fam is r2.fam and same(o, o2):
                        out.append((Or(And(c, g), And(Not(c), g2)) if not (g is True and g2 is True) else True,
                                    Elem(r.fam, ite(c, r.idx, r2.idx, 64)), o, s))
                        del bl[k]
                        break
                else:
                    out.append((And(c, g), r, o, s))
        for (g2, r2, o2, s2) in bl:
            out.append((And(Not(c), g2), r2, o2, s2))
        return Ptr([x for x in out if x[0] is not False])
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else Not(c)
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        if b is False:
            return And(c, a)
        return z3.If(B(c), a, b)
    if isinstance(a, float) or isinstance(b, float) or z3.is_fp(a):
        return z3.If(B(c), tofp(a), tofp(b))
    if w is None:
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else None
        if w is None:
            if isinstance(a, int) and isinstance(b, int):
                raise Inconclusive('ite on untyped constants')
            return z3.If(B(c), a, b)
    return z3.If(B(c), bv(a, w), bv(b, w))


def tofp(x):
    return z3.FPVal(x, z3.Float64()) if isinstance(x, (float, int)) else x


def int_to_ptr(v):
    if isinstance(v, Ptr):
        return v
    if isinstance(v, int):
        return Ptr(NULL, v)
    if isinstance(v, Undef):
        return Ptr(NULL, z3.BitVec(f'undefptr!{uid()}', 64))
    return Ptr(NULL, v)


class Forall:
    """Universally quantified fact/goal over one 64-bit variable, instantiated by the prover at array indices."""
    __slots__ = ('fn', 'roots', 'name')

    def __init__(self, fn, roots, name=''):
        self.fn, self.roots, self.name = fn, roots, name  # roots: z3 array symbols whose select indices trigger it

    def guard(self, pc):
        if pc is True:
            return self
        f = self.fn
        return Forall(lambda k: Implies(pc, f(k)), self.roots, self.name)


def roots_of(a, out=None):
    """root symbols of an array expression (through store / ite)"""
    if out is None:
        out = set()
    st = [a]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        k = x.decl().kind()
        if k == z3.Z3_OP_STORE:
            st.append(x.arg(0))
        elif k == z3.Z3_OP_ITE:
            st.append(x.arg(1))
            st.append(x.arg(2))
        elif k == z3.Z3_OP_CONST_ARRAY:
            pass
        else:
            out.add(i)
    return out


# ---------------------------------------------------------------- program state
class Content:
    __slots__ = ('cells', 'segs')

    def __init__(self, cells=None, segs=None):
        self.cells, self.segs = cells or {}, segs or {}


class State:
    __slots__ = ('pc', 'mem', 'regs', 'zeros', 'ghost')

    def __init__(self):
        self.pc, self.mem, self.regs, self.zeros, self.ghost = [], {}, {}, {}, {}

    def copy(self):
        s = State()
        s.pc, s.mem, s.regs = list(self.pc), dict(self.mem), dict(self.regs)
        s.zeros, s.ghost = dict(self.zeros), dict(self.ghost)
        return s

    def pcf(self):
        return And(self.pc)


class Obl:
    __slots__ = ('name', 'kind', 'where', 'pc', 'goal', 'nf', 'fn', 'status', 'time', 'backend', 'model', 'unit')

    def __init__(self, name, kind, where, pc, goal, nf, fn):
        self.name, self.kind, self.where, self.pc, self.goal, self.nf, self.fn = name, kind, where, pc, goal, nf, fn
        self.status = None
        self.time = 0
        self.backend = None
        self.model = None


class Frame:
    __slots__ = ('fn', 'depth', 'allocas', 'key', 'varargs')

    def __init__(self, fn, depth, key):
        self.fn, self.depth, self.key = fn, depth, key
        self.allocas = {}
        self.varargs = ()


class Config:
    kinds = {'mem', 'div', 'assert'}   # obligation classes generated automatically (also: 'ovf','shift')
    merge = True
    unroll = None         # bounded mode: unroll every loop this many times, drop the rest
    max_depth = 60
    feas_timeout = 1500
    prove_timeout = 8000
    max_iter = 60
    concrete_unroll = 4200
    skip_dtors = False
    spec_only = False       # loops: only the invariants stated in the specification


class Exec:
    def __init__(self, prog, cfg=None):
        self.prog = prog
        self.cfg = cfg or Config()
        self.dry = False
        self.facts = []
        self.obls = []
        self.contracts = {}     # base name or demangled or regex -> handler(ex, st, args, call) -> list of (st, ret)
        self.loop_inv = []      # callbacks(view) -> list of (name, formula)   (spec-supplied candidates)
        self.unroll_fns = {}    # base name -> number: complete unrolling allowed (with unwinding obligation)
        self.globals = {}
        self.assumptions = set()
        self.used_models = set()
        self.used_contracts = set()
        self.inlined = set()
        self.loops_info = {}
        self.inv_cache = {}
        self.mod_cache = {}
        self._fs = None
        self._fsn = 0
        self.bounded_used = False
        self.stats = {'feas': 0, 'prove': 0}
        self.cur = None
        self.cmplog = None
        self.strcache = {}
        self.keep = []
        self.eqcache = {}
        self.copylen = {}
        self.last_time = []
        self.loop_hooks = []
        self.patterns = []
        self.nonnull = {}
        self.mult8 = {}
        self.regions = {}
        self.trace = False
        import models
        models.install(self)

    # ---------- symbols, facts, obligations
    def fresh(self, name, w=64):
        return z3.BitVec(f'{name}!{uid()}', w)

    def freshb(self, name):
        return z3.Bool(f'{name}!{uid()}')

    def fresh_array(self, name, w=8):
        return z3.Array(f'{name}!{uid()}', BV64, z3.BitVecSort(w))

    def assume(self, st, f):
        """fact under the state's path condition"""
        pc = st.pcf() if st is not None else True
        if isinstance(f, Forall):
            self.facts.append(f.guard(pc))
        elif f is True:
            return
        else:
            self.facts.append(B(Implies(pc, f)))

    def assume_pc(self, st, f):
        """strengthen the path condition (assert-then-assume, branch conditions)"""
        if f is not True:
            st.pc.append(B(f))

    def oblige(self, st, kind, name, goal, where=None):
        if kind not in self.cfg.kinds and kind not in ('post', 'pre', 'inv', 'cover', 'term'):
            return
        if goal is True:
            self.obls.append(self._obl(name, kind, where, True, True))
            return
        if not isinstance(goal, Forall):
            g = z3.simplify(B(goal))
            if z3.is_true(g):
                self.obls.append(self._obl(name, kind, where, True, True))
                return
        o = self._obl(name, kind, where, st.pcf(), goal)
        self.obls.append(o)
        if not isinstance(goal, Forall) and kind in ('mem', 'div', 'assert', 'pre'):
            # the continuation may rely on it: execution that violates it has already been reported
            self.facts.append(B(Implies(st.pcf(), goal)))

    def _obl(self, name, kind, where, pc, goal):
        return Obl(name, kind, where or self.loc(), pc, goal, len(self.facts), self.cur.fn.dem if self.cur else '')

    line = 0

    def loc(self):
        if self.cur is None:
            return ''
        return f'{os.path.basename(self.cur.fn.file)}:{self.line} {base_name(self.cur.fn.dem)}'

    # ---------- prover access
    def feasible(self, st, extra=True):
        import solve
        self.stats['feas'] += 1
        if any(z3.is_false(x) for x in st.pc):
            return False
        if extra is False:
            return False
        return solve.feasible(self, st.pcf(), extra)

    def prove(self, pc, goal, timeout=None, split=False):
        import solve
        self.stats['prove'] += 1
        return solve.prove(self.facts, pc, goal, timeout or self.cfg.prove_timeout, split)

    # ---------- regions
    def new_region(self, name, size, segs=(), **kw):
        r = Region(name, size, segs, **kw)
        self.regions[r.id] = r
        return r

    def type_segs(self, t, base=0):
        """array segments of an IR type (integer arrays with more than 8 elements)"""
        out = []
        if isinstance(t, list):
            if t[0] == 's':
                for o, ft in t[2]:
                    out += self.type_segs(ft, base + o)
            elif t[0] == 'a':
                n, es, et = t[1], t[2], t[3]
                if isinstance(et, str) and et.startswith('i') and n > 1:
                    out.append(Seg(base, n * es, es * 8))
                elif isinstance(et, list) and n <= 64:
                    for i in range(n):
                        out += self.type_segs(et, base + i * es)
        return out

    def di_segs(self, ty, base=0):
        out = []
        d = self.prog.types.get(ty)
        if not d or 'fields' not in d:
            return out
        for (n, o, s, tn, bit, bits) in d['fields']:
            m = re.match(r'^(char|unsigned char|signed char|int|unsigned int|short|unsigned short|long|unsigned long|long long|bool)\[(\d+)\]$', tn)
            if m:
                w = {'char': 8, 'unsigned char': 8, 'signed char': 8, 'bool': 8, 'int': 32, 'unsigned int': 32, 'short': 16, 'unsigned short': 16}.get(m.group(1), 64)
                out.append(Seg(base + o, s, w))
            elif tn in self.prog.types:
                out += self.di_segs(tn, base + o)
        return out

    def family(self, ty, name=None):
        d = self.prog.types.get(ty)
        if d is None:
            raise Inconclusive(f'type {ty} not found in the IR')
        f = Family(name or ty, d['size'], type=ty)
        self.regions[f.id] = f
        return f

    def obj(self, ty, name=None, fresh=False):
        """symbolic input object of a class of the program"""
        d = self.prog.types.get(ty)
        if d is None:
            raise Inconclusive(f'type {ty} not found in the IR')
        return self.new_region(name or ty, d['size'], self.di_segs(ty), type=ty, fresh=fresh)

    def buf(self, name, size, w=8, fresh=False):
        return self.new_region(name, size, [Seg(0, size, w)], fresh=fresh)

    def off(self, ty, path):
        try:
            return self.prog.fieldpath(ty, path)[0]
        except KeyError as e:
            raise Inconclusive(str(e))

    def global_region(self, name):
        r = self.globals.get(name)
        if r is None:
            if name in self.prog.funcs or name in self.prog.decls:
                r = Region(name, 0, kind='func')
            else:
                g = self.prog.globals.get(name)
                if g is None:
                    raise Inconclusive('unknown global ' + name)
                r = self.new_region(g.get('dem', name), g['size'], self.type_segs(g['type']), const=(bool(g['const']) and 'init' in g) or self.prog.readonly(name))
                if r.const:
                    self._ginit(r, g['init'], g['type'], 0)
            self.globals[name] = r
        return r

    def _ginit(self, r, c, t, off):
        k = c[0]
        if k == 'zero':
            self._gzero(r, t, off)
        elif k == 'data':
            w = c[1]
            seg = next((s for s in r.segs if s.start == off), None)
            if seg is not None:
                r.data[off] = c[2]
            else:
                for i, v in enumerate(c[2]):
                    r.cache[off + i * (w // 8)] = (w // 8, v)
        elif k == 'agg':
            if t[0] == 's':
                for (o, ft), x in zip(t[2], c[2]):
                    self._ginit(r, x, ft, off + o)
            else:
                if isinstance(t[3], str) and t[3].startswith('i'):
                    vals = [x[2] if x[0] == 'c' else 0 for x in c[2]]
                    if any(x[0] not in ('c', 'undef', 'zero') for x in c[2]):
                        raise Inconclusive('constant array with relocations')
                    self._ginit(r, ['data', int(t[3][1:]), vals], t, off)
                else:
                    for i, x in enumerate(c[2]):
                        self._ginit(r, x, t[3], off + i * t[2])
        elif k == 'c':
            r.cache[off] = (max(1, c[1] // 8), c[2])
        elif k == 'null':
            r.cache[off] = (8, NULLPTR)
        elif k in ('g', 'gep'):
            r.ptr_init[off] = lambda ex, c=c: ex.operand(None, c)
        elif k == 'f':
            r.cache[off] = (8, float.fromhex(c[1]))
        elif k == 'undef':
            pass
        else:
            r.ptr_init[off] = lambda ex: (_ for _ in ()).throw(Inconclusive('global initialiser ' + k))

    def _gzero(self, r, t, off):
        if isinstance(t, str):
            n = {'ptr': 8, 'double': 8, 'float': 4}.get(t) or (int(t[1:]) + 7) // 8
            r.cache[off] = (n, NULLPTR if t == 'ptr' else (0.0 if t in ('double', 'float') else 0))
        elif t[0] == 's':
            for o, ft in t[2]:
                self._gzero(r, ft, off + o)
        elif t[0] == 'a':
            seg = next((s for s in r.segs if s.start == off), None)
            if seg is not None:
                r.data[off] = [0] * t[1]
            else:
                for i in range(t[1]):
                    self._gzero(r, t[3], off + i * t[2])

    # ---------- loads and stores
    def seg_array(self, st, r, s):
        c = st.mem.get(r.id)
        if c is not None and s.start in c.segs:
            return c.segs[s.start]
        a = r.segcache.get(s.start)
        if a is None:
            if s.w is None:
                s.w = 8
            if s.start in r.data:
                a = z3.K(BV64, z3.BitVecVal(0, s.w))
                for i, v in enumerate(r.data[s.start]):
                    a = z3.Store(a, z3.BitVecVal(i, 64), z3.BitVecVal(v, s.w))
            else:
                ww = 64 if isinstance(s.w, Family) else s.w
                a = z3.Array(f'{r.name}.{s.start}!{r.id}', BV64, z3.BitVecSort(ww))
            r.segcache[s.start] = a
        return a

    def set_seg(self, st, r, s, a):
        c = st.mem.get(r.id)
        n = Content(dict(c.cells) if c else {}, dict(c.segs) if c else {})
        n.segs[s.start] = a
        st.mem[r.id] = n

    def cell(self, st, r, off, n, ty=None):
        """load n bytes at constant offset off of an object region (not in a segment)"""
        c = st.mem.get(r.id)
        cells = c.cells if c else {}
        x = cells.get(off)
        if x is not None and x[0] == n:
            return x[1]
        ov = self._overlap(cells, off, n)
        if not ov:
            x = r.cache.get(off)
            if x is not None and x[0] == n:
                return x[1]
            if not self._overlap(r.cache, off, n):
                return self._init_cell(r, off, n, ty)
        if n == 1:
            for src in (cells, r.cache):
                ov = self._overlap(src, off, 1)
                if ov:
                    o, (m, v) = ov[0]
                    if isinstance(v, Ptr):
                        raise Inconclusive('byte access to a stored pointer')
                    if isinstance(v, bool):
                        v = int(v)
                    if isinstance(v, int):
                        return (v >> (8 * (off - o))) & 255
                    if isinstance(v, Undef):
                        return self.fresh('undef', 8)
                    if z3.is_fp(v) or isinstance(v, float):
                        raise Inconclusive('byte access to float')
                    lo = 8 * (off - o)
                    return z3.Extract(lo + 7, lo, v)
            return self._init_cell(r, off, 1, None)
        # contained in one wider cell: extract
        for src in (cells, r.cache):
            ov = self._overlap(src, off, n)
            if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1][0] >= off + n:
                o, (m, v) = ov[0]
                if isinstance(v, int):
                    return (v >> (8 * (off - o))) & M(8 * n)
                if isinstance(v, z3.BitVecRef):
                    lo = 8 * (off - o)
                    return z3.Extract(lo + 8 * n - 1, lo, v)
            if ov:
                break
        bs = [self.cell(st, r, off + i, 1) for i in range(n)]
        return self.concat(bs, 8)

    def concat(self, parts, w):
        """little-endian concatenation"""
        if all(isinstance(p, int) for p in parts):
            v = 0
            for i, p in enumerate(parts):
                v |= p << (w * i)
            return v
        if len(parts) == 1:
            return parts[0]
        return z3.Concat(*[bv(p, w) for p in reversed(parts)])

    def _overlap(self, cells, off, n):
        if len(cells) > 24:
            out = []
            for o in range(off - 15, off + n):
                x = cells.get(o)
                if x is not None and o + x[0] > off:
                    out.append((o, x))
            return out
        return [(o, x) for o, x in cells.items() if o < off + n and o + x[0] > off]

    def _init_cell(self, r, off, n, ty):
        if off in r.ptr_init and n == 8:
            p = r.ptr_init[off]
            if callable(p):
                p = p(self)
            r.cache[off] = (8, p)
            return p
        if off in r.int_init:
            v = r.int_init[off]
            r.cache[off] = (n, v)
            return v
        if off == 0 and n == 8 and r.type and ty == 'ptr':
            vt = self.vtable(r.type)
            if vt is not None:
                r.cache[0] = (8, vt)
                return vt
        if ty == 'ptr':
            if r.onload:
                v = r.onload(self, r, off)
                if v is not None:
                    r.cache[off] = (8, v)
                    return v
            if r.fresh:
                v = Ptr(NULL, z3.BitVec(f'{r.name}.{off}.uninit!{r.id}', 64))
            else:
                v = self.lazy_ptr(r, off)
        elif ty == 'double':
            v = z3.FP(f'{r.name}.{off}!{r.id}', z3.Float64())
        else:
            v = z3.BitVec(f'{r.name}.{self.fname(r, off)}!{r.id}', 8 * n)
        r.cache[off] = (n, v)
        return v

    def fname(self, r, off):
        if r.type:
            for n, (o, s, t) in self.prog.fields(r.type).items():
                if o == off:
                    return n
        return str(off)

    def lazy_ptr(self, r, off):
        """pointer member of an input object nobody constrained: null or an own, unaliased object"""
        ty = None
        if r.type:
            for n, (o, s, t) in self.prog.fields(r.type).items():
                if o == off and t.endswith('*'):
                    ty = t[:-1]
        size = self.prog.types[ty]['size'] if ty in self.prog.types else None
        nm = f'{r.name}.{self.fname(r, off)}'
        if ty in ('char', 'unsigned char'):
            t = z3.BitVec(nm + f'.size!{r.id}', 64)
            rr = self.buf(nm + '*', t)
            self.facts.append(z3.ULT(t, 1 << 40))
        elif size:
            rr = self.obj(ty, nm + '*')
        else:
            rr = self.new_region(nm + '*', 1 << 20)
        self.assumptions.add(f'pointer member {nm} is null or points to an object not aliased by other inputs')
        b = z3.Bool(f'{nm}.isnull!{r.id}')
        return Ptr([(b, NULL, 0, None), (z3.Not(b), rr, 0, None)])

    def vtable(self, ty):
        cand = None
        for n, g in self.prog.globals.items():
            if n.startswith('_ZTV') and g.get('dem') == 'vtable for ' + ty:
                cand = n
        if cand is None:
            return None
        return Ptr(self.global_region(cand), 16)

    # families
    def fam_cell(self, st, fam, off, n, ty=None):
        """array idx->value for a family field"""
        c = st.mem.get(fam.id)
        if c is not None and off in c.cells and c.cells[off][0] == n:
            return c.cells[off][1]
        if c is not None and self._overlap(c.cells, off, n):
            raise Inconclusive(f'mixed-width access to {fam.name}+{off}')
        x = fam.cache.get(off)
        if x is not None:
            if x[0] != n:
                raise Inconclusive(f'mixed-width access to {fam.name}+{off}')
            return x[1]
        if self._overlap(fam.cache, off, n):
            raise Inconclusive(f'mixed-width access to {fam.name}+{off}')
        a = z3.Array(f'{fam.name}.{self.fname(fam, off)}!{fam.id}', BV64, z3.BitVecSort(8 * n))
        fam.cache[off] = (n, a)
        return a

    def load(self, st, p, ty, n):
        """n bytes of IR type ty through pointer p"""
        p = int_to_ptr(p)
        res = None
        for (g, r, off, seg) in p.alts:
            if g is not True and z3.is_false(B(g)):
                continue
            if r.kind == 'null' or r.kind == 'func':
                self.oblige_g(st, g, 'mem', 'null or invalid pointer dereference (read)', False)
                continue
            v = self.load1(st, r, off, seg, ty, n, g)
            res = v if res is None else ite(g, v, res, 8 * n)
        if res is None:
            # every alternative is null: execution stops here
            st.pc.append(FALSE)
            return Undef(ty) if ty != 'ptr' else NULLPTR
        return res

    def oblige_g(self, st, g, kind, name, goal):
        if g is True:
            self.oblige(st, kind, name, goal)
        else:
            self.oblige(st, kind, name, Implies(g, goal))

    def inb(self, off, n, lo, size):
        """lo <= off && off+n <= lo+size (unsigned)"""
        if isinstance(off, int) and isinstance(size, int):
            return lo <= off and off + n <= lo + size and off < (1 << 63)
        o = suboff(off, lo)
        if isinstance(size, int):
            if size < n:
                return False
            return z3.ULE(bv(o, 64), bv(size - n, 64))
        return And(z3.UGE(size, bv(n, 64)), z3.ULE(bv(o, 64), size - n))

    def load1(self, st, r, off, seg, ty, n, g):
        if isinstance(r, Elem):
            self.oblige_g(st, g, 'mem', f'read within {r.fam.name} object', self.inb(off, n, 0, r.size))
            if not isinstance(off, int):
                raise Inconclusive('symbolic offset inside a family object')
            fam = r.fam
            if off in fam.ptr_fixed:
                return fam.ptr_fixed[off]
            if off in fam.ptr_cells:
                t = fam.ptr_cells[off]
                a = self.fam_cell(st, fam, off, 8)
                i = z3.Select(a, bv(r.idx, 64))
                return self.fam_ptr(t, i)
            if ty == 'ptr':
                raise Inconclusive(f'pointer member {fam.name}.{self.fname(fam, off)} has no declared target')
            a = self.fam_cell(st, fam, off, n)
            return z3.Select(a, bv(r.idx, 64))
        if r.freed:
            self.oblige_g(st, g, 'mem', f'read of freed {r.name}', False)
        if seg is None and isinstance(off, int) and r.segs:
            seg = r.seg_at(off)
            if seg is not None and isinstance(seg.size, int) and off >= seg.start + seg.size:
                seg = None
        if seg is None and not isinstance(off, int):
            if len(r.segs) == 1 and r.segs[0].start == 0:
                seg = r.segs[0]
            else:
                return self.load_sym(st, r, off, ty, n, g)
        if seg is not None:
            self.oblige_g(st, g, 'mem', f'read within {r.name}', self.inb(off, n, seg.start, seg.size))
            return self.seg_load(st, r, seg, suboff(off, seg.start), n, ty)
        self.oblige_g(st, g, 'mem', f'read within {r.name}', self.inb(off, n, 0, r.size))
        return self.cell(st, r, off, n, ty)

    def load_sym(self, st, r, off, ty, n, g):
        """symbolic offset into an object without array segment: case split over aligned positions"""
        if not isinstance(r.size, int) or r.size > 2048:
            raise Inconclusive(f'symbolic offset into {r.name}')
        self.oblige_g(st, g, 'mem', f'read within {r.name}', self.inb(off, n, 0, r.size))
        res = None
        for o in range(0, r.size - n + 1, n):
            try:
                v = self.cell(st, r, o, n, ty)
            except Inconclusive:
                continue
            res = v if res is None else ite(bv(off, 64) == o, v, res, 8 * n)
        return res

    def fam_ptr(self, fam, i):
        if isinstance(i, int):
            return NULLPTR if i == 0 else Ptr(Elem(fam, i), 0)
        if i.get_id() in self.nonnull.get(fam.id, {}):
            return Ptr(Elem(fam, i), 0)
        c = i == 0
        return Ptr([(c, NULL, 0, None), (z3.Not(c), Elem(fam, i), 0, None)])

    def seg_load(self, st, r, seg, o, n, ty):
        if isinstance(seg.w, Family):
            a = self.seg_array(st, r, seg)
            i = self.eidx(o, 8)
            return self.fam_ptr(seg.w, fold(z3.simplify(z3.Select(a, bv(i, 64)))))
        if seg.w is None:
            seg.w = 8 * n if n in (1, 2, 4, 8) else 8
        w = seg.w // 8
        if n == w and isinstance(o, int) and seg.start in r.data and (r.id not in st.mem or seg.start not in st.mem[r.id].segs):
            i = o // w
            if o % w == 0 and i < len(r.data[seg.start]):
                return r.data[seg.start][i]
        if n == w and seg.start in r.data and (r.id not in st.mem or seg.start not in st.mem[r.id].segs):
            v = self.linear_table(r, seg, z3.simplify(bv(self.eidx(o, w), 64)))
            if v is not None:
                return v
        a = self.seg_array(st, r, seg)
        if n == w:
            v = z3.Select(a, bv(self.eidx(o, w), 64))
            return fold(z3.simplify(v)) if isinstance(o, int) or True else v
        if n > w and n % w == 0:
            i = self.eidx(o, w)
            return self.concat([fold(z3.simplify(z3.Select(a, bv(addoff(i, k), 64)))) for k in range(n // w)], seg.w)
        if n < w and w % n == 0 and isinstance(o, int):
            v = z3.Select(a, bv(o // w, 64))
            lo = (o % w) * 8
            return z3.Extract(lo + 8 * n - 1, lo, v)
        if n < w:
            v = z3.Select(a, z3.LShR(bv(o, 64), w.bit_length() - 1))
            sh = (bv(o, 64) & (w - 1)) * 8
            v = z3.LShR(v, z3.Extract(seg.w - 1, 0, sh) if seg.w <= 64 else sh)
            return z3.Extract(8 * n - 1, 0, v)
        raise Inconclusive(f'access of {n} bytes in {r.name} (element {w} bytes)')

    def linear_table(self, r, seg, i):
        """constant table whose 256-entry blocks are XOR-linear (checked entry by entry): a lookup is the XOR of the
        entries of the index bits"""
        d = r.data[seg.start]
        if len(d) % 256 or not d:
            return None
        lin = r.__dict__.setdefault('linear', {})
        if seg.start not in lin:
            lin[seg.start] = all(d[b + k] == d[b + (k & (k - 1))] ^ d[b + (k & -k)] for b in range(0, len(d), 256) for k in range(1, 256)) and all(d[b] == 0 for b in range(0, len(d), 256))
        if not lin[seg.start]:
            return None
        blocks = len(d) // 256
        hi = z3.simplify(z3.LShR(i, 8))
        out = None
        for b in range(blocks):
            if z3.is_bv_value(hi) and hi.as_long() != b:
                continue
            x = z3.BitVecVal(0, seg.w)
            for k in range(8):
                bit = z3.simplify(z3.Extract(k, k, i))
                x = x ^ (z3.SignExt(seg.w - 1, bit) & z3.BitVecVal(d[b * 256 + (1 << k)], seg.w))
            out = x if out is None else z3.If(hi == b, x, out)
        return out

    def eidx(self, o, w):
        """element index for byte offset o in an array of w-byte elements"""
        if w == 1:
            return o
        if isinstance(o, int):
            if o % w:
                raise Inconclusive('misaligned element access')
            return o // w
        sh = w.bit_length() - 1
        # o is normally base + (i << sh) or base + i*w
        e = z3.simplify(z3.LShR(o, sh))
        # try to undo (i*w) >> sh
        t = self._div(o, w)
        if t is not None:
            return fold(z3.simplify(t))
        self.facts.append((o & (w - 1)) == 0) if False else None
        return fold(e)

    def _div(self, o, w):
        """symbolic exact division of a byte offset expression by w when it is syntactically a multiple
        (valid as offsets are below 2^63: the multiplication did not wrap - checked by the bounds obligation)"""
        k = o.decl().kind()
        if z3.is_bv_value(o):
            v = o.as_long()
            sv = sgn(v, 64)
            return z3.BitVecVal(sv // w, 64) if sv % w == 0 else None
        if k == z3.Z3_OP_BADD:
            ps = [self._div(o.arg(i), w) for i in range(o.num_args())]
            if any(p is None for p in ps):
                return None
            r = ps[0]
            for p in ps[1:]:
                r = r + p
            return r
        if k == z3.Z3_OP_BMUL and z3.is_bv_value(o.arg(0)):
            c = sgn(o.arg(0).as_long(), 64)
            if c % w == 0:
                r = o.arg(1)
                for i in range(2, o.num_args()):
                    r = r * o.arg(i)
                return r * (c // w) if c // w != 1 else r
            return None
        if k == z3.Z3_OP_CONCAT:
            # concat(x, 000) = x*8
            last = o.arg(o.num_args() - 1)
            sh = w.bit_length() - 1
            if z3.is_bv_value(last) and last.as_long() == 0 and last.size() == sh:
                parts = [o.arg(i) for i in range(o.num_args() - 1)]
                x = parts[0] if len(parts) == 1 else z3.Concat(*parts)
                # x has 64-sh bits: sign-extension of the original index (bounds obligation pins the range)
                if z3.is_app_of(x, z3.Z3_OP_EXTRACT):
                    src = x.arg(0)
                    if src.size() == 64 and x.params()[1] == 0:
                        return src
                return z3.SignExt(sh, x)
            return None
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(o.arg(1)) and (1 << o.arg(1).as_long()) == w:
            return o.arg(0)
        if k == z3.Z3_OP_ITE:
            a, b = self._div(o.arg(1), w), self._div(o.arg(2), w)
            return None if a is None or b is None else z3.If(o.arg(0), a, b)
        if w == 8 and o.get_id() in self.mult8:
            return self.mult8[o.get_id()]
        return None

    def store(self, st, p, v, ty, n):
        p = int_to_ptr(p)
        alts = [a for a in p.alts if a[0] is True or not z3.is_false(B(a[0]))]
        real = [a for a in alts if a[1].kind not in ('null', 'func')]
        for a in alts:
            if a[1].kind in ('null', 'func'):
                self.oblige_g(st, a[0], 'mem', 'null or invalid pointer dereference (write)', False)
        if not real:
            st.pc.append(FALSE)
            return
        one = len(real) == 1 and len(alts) == 1
        for (g, r, off, seg) in real:
            self.store1(st, r, off, seg, v, ty, n, True if one else g)

    def store1(self, st, r, off, seg, v, ty, n, g):
        if isinstance(r, Elem):
            self.oblige_g(st, g, 'mem', f'write within {r.fam.name} object', self.inb(off, n, 0, r.size))
            if not isinstance(off, int):
                raise Inconclusive('symbolic offset inside a family object')
            fam = r.fam
            if off in fam.ptr_cells:
                val = self.ptr_idx(v, fam.ptr_cells[off])
                a = self.fam_cell(st, fam, off, 8)
            else:
                if isinstance(v, Ptr):
                    raise Inconclusive(f'pointer stored to undeclared member {fam.name}.{self.fname(fam, off)}')
                a = self.fam_cell(st, fam, off, n)
                val = self.tobv(v, 8 * n)
            if g is not True:
                val = z3.If(B(g), val, z3.Select(a, bv(r.idx, 64)))
            c = st.mem.get(fam.id)
            nc = Content(dict(c.cells) if c else {}, {})
            nc.cells[off] = (n, z3.Store(a, bv(r.idx, 64), val))
            st.mem[fam.id] = nc
            return
        if r.freed:
            self.oblige_g(st, g, 'mem', f'write to freed {r.name}', False)
        if r.const:
            self.oblige_g(st, g, 'mem', f'write to constant {r.name}', False)
        if seg is None and isinstance(off, int) and r.segs:
            seg = r.seg_at(off)
            if seg is not None and isinstance(seg.size, int) and off >= seg.start + seg.size:
                seg = None
        if seg is None and not isinstance(off, int):
            if len(r.segs) == 1 and r.segs[0].start == 0:
                seg = r.segs[0]
            else:
                if not isinstance(r.size, int) or r.size > 2048:
                    raise Inconclusive(f'symbolic offset into {r.name}')
                self.oblige_g(st, g, 'mem', f'write within {r.name}', self.inb(off, n, 0, r.size))
                for o in range(0, r.size - n + 1, n):
                    try:
                        old = self.cell(st, r, o, n, ty)
                    except Inconclusive:
                        continue
                    self.set_cell(st, r, o, n, ite(And(g, bv(off, 64) == o), v, old, 8 * n))
                return
        if seg is not None:
            self.oblige_g(st, g, 'mem', f'write within {r.name}', self.inb(off, n, seg.start, seg.size))
            self.seg_store(st, r, seg, suboff(off, seg.start), v, n, g)
            return
        self.oblige_g(st, g, 'mem', f'write within {r.name}', self.inb(off, n, 0, r.size))
        if g is not True:
            v = ite(g, v, self.cell(st, r, off, n, ty), 8 * n)
        self.set_cell(st, r, off, n, v)

    def set_cell(self, st, r, off, n, v):
        c = st.mem.get(r.id)
        cells = dict(c.cells) if c else {}
        for o, (m, x) in self._overlap(cells, off, n):
            if o == off and m == n:
                continue
            # keep the bytes outside the written range
            if o < off or o + m > off + n:
                for b in range(o, o + m):
                    if not off <= b < off + n:
                        cells[b] = (1, self.cell(st, r, b, 1))
            del cells[o]
        cells[off] = (n, v)
        st.mem[r.id] = Content(cells, dict(c.segs) if c else {})

    def seg_store(self, st, r, seg, o, v, n, g):
        a = self.seg_array(st, r, seg) if seg.w is not None else None
        if isinstance(seg.w, Family):
            val = self.ptr_idx(v, seg.w)
            i = bv(self.eidx(o, 8), 64)
            if g is not True:
                val = z3.If(B(g), val, z3.Select(a, i))
            self.set_seg(st, r, seg, z3.Store(a, i, val))
            return
        if seg.w is None:
            if isinstance(v, Ptr):
                raise Inconclusive(f'pointer stored into untyped array {r.name}')
            seg.w = 8 * n if n in (1, 2, 4, 8) else 8
            a = self.seg_array(st, r, seg)
        w = seg.w // 8
        v = self.tobv(v, 8 * n)
        if n == w:
            i = bv(self.eidx(o, w), 64)
            if g is not True:
                v = z3.If(B(g), bv(v, 8 * n), z3.Select(a, i))
            if w == 1 and (isinstance(v, int) and v == 0 or z3.is_bv_value(v) and v.as_long() == 0):
                self.note_zero(st, r, addoff(o, seg.start))
            a = z3.Store(a, i, bv(v, 8 * n))
        elif n > w and n % w == 0:
            i = self.eidx(o, w)
            for k in range(n // w):
                part = z3.simplify(z3.Extract(k * seg.w + seg.w - 1, k * seg.w, bv(v, 8 * n)))
                j = bv(addoff(i, k), 64)
                if g is not True:
                    part = z3.If(B(g), part, z3.Select(a, j))
                a = z3.Store(a, j, part)
        else:
            raise Inconclusive(f'narrow store into {r.name}')
        self.set_seg(st, r, seg, a)

    def note_zero(self, st, r, off):
        l = st.zeros.get(r.id, ())
        if not any(same(off, x) for x in l):
            st.zeros[r.id] = (l + (off,))[-12:]

    def ptr_idx(self, v, fam):
        """pointer value -> family index (0 null)"""
        v = int_to_ptr(v)
        res = None
        for (g, r, o, s) in v.alts:
            if r.kind == 'null':
                i = 0
            elif isinstance(r, Elem) and r.fam is fam and same(o, 0):
                i = r.idx
            elif getattr(r, 'famidx', None) is not None and r.famidx[0] is fam:
                i = r.famidx[1]
            else:
                raise Inconclusive(f'pointer to {r} stored where {fam.name}* is declared')
            res = i if res is None else ite(g, i, res, 64)
        return bv(res, 64)

    def tobv(self, v, w):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Undef):
            return self.fresh('undef', w)
        if isinstance(v, Ptr):
            return self.ptr_int(v)
        if isinstance(v, float):
            return z3.fpToIEEEBV(tofp(v))
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_fp(v):
            return z3.fpToIEEEBV(v)
        return v

    def region_base(self, r):
        if r.kind == 'null':
            return 0
        if isinstance(r, Elem):
            f = z3.Function(f'addr.{r.fam.name}', BV64, BV64)
            return f(bv(r.idx, 64))
        if r.base is None:
            r.base = z3.BitVec(f'addr.{r.name}!{r.id}', 64)
            self.facts.append(And(z3.UGT(r.base, 4096), z3.ULT(r.base, 1 << 47)))
        return r.base

    def ptr_int(self, p):
        res = None
        for (g, r, o, s) in p.alts:
            v = addoff(self.region_base(r), o)
            res = v if res is None else ite(g, v, res, 64)
        return res

    def ptr_eq(self, a, b):
        a, b = int_to_ptr(a), int_to_ptr(b)
        out = []
        for (g, r, o, s) in a.alts:
            for (g2, r2, o2, s2) in b.alts:
                if sameregion(r, r2):
                    out.append(And(g, g2, self.eq(o, o2, 64)))
                elif isinstance(r, Elem) and isinstance(r2, Elem) and r.fam is r2.fam:
                    out.append(And(g, g2, self.eq(r.idx, r2.idx, 64), self.eq(o, o2, 64)))
                elif isinstance(r, Elem) and getattr(r2, 'famidx', None) and r2.famidx[0] is r.fam:
                    out.append(And(g, g2, self.eq(r.idx, r2.famidx[1], 64), self.eq(o, o2, 64)))
                elif isinstance(r2, Elem) and getattr(r, 'famidx', None) and r.famidx[0] is r2.fam:
                    out.append(And(g, g2, self.eq(r2.idx, r.famidx[1], 64), self.eq(o, o2, 64)))
        return Or(*out) if out else False

    def eq(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return (a & M(w)) == (b & M(w))
        e = bv(a, w) == bv(b, w)
        return True if z3.is_true(z3.simplify(e)) else e

    def is_null(self, p):
        return self.ptr_eq(p, NULLPTR)

    # ---------- operands
    def operand(self, st, o, ty=None):
        k = o[0]
        if k == 'v':
            try:
                return st.regs[o[1]]
            except KeyError:
                raise Inconclusive(f'undefined register {o[1]}')
        if k == 'c':
            if o[1] == 1:
                return bool(o[2])
            return o[2]
        if k == 'null':
            return NULLPTR
        if k == 'undef':
            if o[1] == 'ptr':
                return Undef('ptr')
            if isinstance(o[1], list):
                return tuple(Undef(f[1]) for f in o[1][2]) if o[1][0] == 's' else Undef(o[1])
            return Undef(o[1])
        if k == 'g':
            return Ptr(self.global_region(o[1]), 0)
        if k == 'gep':
            return self.gep(st, o[1:])
        if k == 'f':
            return float.fromhex(o[1]) if o[1] != '?' else 0.0
        if k == 'zero':
            t = o[1]
            if t == 'ptr':
                return NULLPTR
            if isinstance(t, list) and t[0] == 's':
                return tuple(NULLPTR if f[1] == 'ptr' else 0 for f in t[2])
            return 0
        if k == 'ce':
            if o[1] == 'ptrtoint' or o[1] == 'bitcast' or o[1] == 'inttoptr':
                return self.operand(st, o[3])
            if o[1] == 'sub':
                return self.binop(st, 'sub', self.operand(st, o[3]), self.operand(st, o[5]), 64, {})
            raise Inconclusive('constant expression ' + o[1])
        if k == 'agg' and o[1][0] == 's':
            return tuple(self.operand(st, x) for x in o[2])
        raise Inconclusive('operand ' + k)

    def gep(self, st, x):
        base, off, var, inb = x[0], x[1], x[2], x[3]
        p = int_to_ptr(self.operand(st, base))
        add = 0
        for (o, w, sc) in var:
            i = self.operand(st, o)
            if isinstance(i, Undef):
                i = self.fresh('undef', w)
            if isinstance(i, Ptr):
                i = self.ptr_int(i)
            i = self.sext(i, w, 64)
            add = addoff(add, self.mul(i, sc))
        alts = []
        for (g, r, o, s) in p.alts:
            o2 = addoff(o, off & M(64))
            if not (isinstance(add, int)):
                if s is None and isinstance(o2, int) and r.segs:
                    s = r.seg_at(o2)
                    if s is None:
                        # e.g. &arr[i - 1]: constant part just below the segment
                        for q in r.segs:
                            d = sgn(o2 - q.start, 64)
                            if -64 <= d < 0:
                                s = q
                                break
                o2 = addoff(o2, add)
            else:
                o2 = addoff(o2, add)
                if s is not None and isinstance(o2, int) and len(r.segs) != 1:
                    s = None if not (s.start <= o2 <= s.start + (s.size if isinstance(s.size, int) else 1 << 62)) else s
            alts.append((g, r, o2, s))
        return Ptr(alts)

    def mul(self, i, c):
        if isinstance(i, int):
            return (i * c) & M(64)
        return i * c if c != 1 else i

    def sext(self, v, w, w2):
        if w == w2:
            return v
        if isinstance(v, int):
            return sgn(v, w) & M(w2)
        return z3.SignExt(w2 - w, v)

    # ---------- arithmetic
    def num(self, v, w):
        if isinstance(v, Undef):
            return self.fresh('undef', w)
        if isinstance(v, Ptr):
            return self.ptr_int(v)
        if isinstance(v, bool) or z3.is_bool(v):
            return self.tobv(v, w)
        if isinstance(v, tuple):
            raise Inconclusive('aggregate arithmetic')
        return v

    def binop(self, st, op, a, b, w, x):
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool):
                    return Not(a) if b else a
                if isinstance(a, bool):
                    return Not(b) if a else b
                return z3.Xor(a, b)
            raise Inconclusive('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                return self.ptr_sub(a, b)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr([(g, r, addoff(o, self.num(b, 64)), s) for g, r, o, s in a.alts])
            if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr):
                return Ptr([(g, r, addoff(o, self.num(a, 64)), s) for g, r, o, s in b.alts])
            if op == 'sub' and isinstance(a, Ptr):
                return Ptr([(g, r, suboff(o, self.num(b, 64)), s) for g, r, o, s in a.alts])
        a, b = self.num(a, w), self.num(b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, 'div', 'division by zero', Not(self.eq(b, 0, w)))
            if op in ('sdiv', 'srem') and not (isinstance(b, int) and sgn(b, w) != -1):
                self.oblige(st, 'ovf', 'signed division overflow', Not(And(self.eq(a, 1 << (w - 1), w), self.eq(b, -1, w))))
        if op in ('shl', 'lshr', 'ashr'):
            if not (isinstance(b, int) and b < w):
                self.oblige(st, 'shift', f'shift amount below {w}', z3.ULT(bv(b, w), w))
        if x.get('nsw') and 'ovf' in self.cfg.kinds and op in ('add', 'sub', 'mul') and not (isinstance(a, int) and isinstance(b, int)):
            A, Bb = bv(a, w), bv(b, w)
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(A, Bb, True), z3.BVAddNoUnderflow(A, Bb))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(A, Bb), z3.BVSubNoUnderflow(A, Bb, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(A, Bb, True), z3.BVMulNoUnderflow(A, Bb))
            self.oblige(st, 'ovf', f'no signed overflow in {op}', ok)
        if isinstance(a, int) and isinstance(b, int):
            return self.cop(op, a, b, w)
        # cheap identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op == 'and':
                return 0
            if op == 'and' and b == M(w):
                return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if op == 'mul' and b == 0:
                return 0
        if isinstance(a, int) and a == 0 and op in ('add', 'or', 'xor'):
            return b
        A, Bb = bv(a, w), bv(b, w)
        r = {'add': lambda: A + Bb, 'sub': lambda: A - Bb, 'mul': lambda: A * Bb, 'udiv': lambda: z3.UDiv(A, Bb),
             'sdiv': lambda: A / Bb, 'urem': lambda: z3.URem(A, Bb), 'srem': lambda: z3.SRem(A, Bb),
             'shl': lambda: A << Bb, 'lshr': lambda: z3.LShR(A, Bb), 'ashr': lambda: A >> Bb,
             'and': lambda: A & Bb, 'or': lambda: A | Bb, 'xor': lambda: A ^ Bb}[op]()
        return r

    def cop(self, op, a, b, w):
        sa, sb = sgn(a, w), sgn(b, w)
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'udiv':
            r = a // b if b else M(w)
        elif op == 'urem':
            r = a % b if b else a
        elif op == 'sdiv':
            r = (abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) if sb else -1
        elif op == 'srem':
            r = (abs(sa) % abs(sb) * (-1 if sa < 0 else 1)) if sb else a
        elif op == 'shl':
            r = a << b if b < w else 0
        elif op == 'lshr':
            r = a >> b if b < w else 0
        elif op == 'ashr':
            r = sa >> min(b, w - 1)
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        return r & M(w)

    def ptr_sub(self, a, b):
        res = None
        for (g, r, o, s) in a.alts:
            for (g2, r2, o2, s2) in b.alts:
                if sameregion(r, r2):
                    d = suboff(o, o2)
                else:
                    d = suboff(addoff(self.region_base(r), o), addoff(self.region_base(r2), o2))
                res = d if res is None else ite(And(g, g2), d, res, 64)
        return res

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, Undef):
            return self.freshb('undef')
        if z3.is_bool(v):
            return v
        return z3.Extract(0, 0, v) == 1

    def icmp(self, pred, a, b, w):
        if isinstance(a, Undef):
            a = self.fresh('undef', w) if w > 1 else self.freshb('undef')
        if isinstance(b, Undef):
            b = self.fresh('undef', w) if w > 1 else self.freshb('undef')
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return Not(self.binop(None, 'xor', a, b, 1, {}))
            if pred == 'ne':
                return self.binop(None, 'xor', a, b, 1, {})
            raise Inconclusive('i1 compare')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = int_to_ptr(a), int_to_ptr(b)
            if pred == 'eq':
                return self.ptr_eq(a, b)
            if pred == 'ne':
                return Not(self.ptr_eq(a, b))
            out = []
            for (g, r, o, s) in a.alts:
                for (g2, r2, o2, s2) in b.alts:
                    if sameregion(r, r2):
                        # addresses of one object: compare offsets as signed (one-before-begin stays below begin)
                        c = self.icmp({'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred), o, o2, 64)
                    else:
                        c = self.icmp(pred, addoff(self.region_base(r), o), addoff(self.region_base(r2), o2), 64)
                    out.append(And(g, g2, c))
            return Or(*out)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            a, b = a & M(w), b & M(w)
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        if self.cmplog is not None and w >= 32:
            self.cmplog.append((w, a, b))
        if pred in ('eq', 'ne'):
            # zext-from-bool comparisons
            e = self.boolcmp(a, b, w)
            if e is None:
                e = bv(a, w) == bv(b, w)
                if z3.is_true(e):
                    e = True
            return e if pred == 'eq' else Not(e)
        A, Bb = bv(a, w), bv(b, w)
        r = {'ult': lambda: z3.ULT(A, Bb), 'ule': lambda: z3.ULE(A, Bb), 'ugt': lambda: z3.UGT(A, Bb), 'uge': lambda: z3.UGE(A, Bb),
             'slt': lambda: A < Bb, 'sle': lambda: A <= Bb, 'sgt': lambda: A > Bb, 'sge': lambda: A >= Bb}[pred]()
        return r

    def boolcmp(self, a, b, w):
        """If(c,1,0) == k"""
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            t, f = a.arg(1).as_long(), a.arg(2).as_long()
            b &= M(w)
            if t == b and f != b:
                return a.arg(0)
            if f == b and t != b:
                return Not(a.arg(0))
            if f != b and t != b:
                return False
            return True
        return None

    # ---------- instructions
    def exec_block(self, fr, b, st, i=0):
        """run block b from instruction i; returns list of ('br', target, st) / ('ret', st, val)"""
        ins = fr.fn.blocks[b]
        n = len(ins)
        while i < n:
            op, res, ty, line, nm, x = ins[i]
            self.cur = fr
            if line:
                self.line = line
            if op == 'phi':
                i += 1
                continue
            if op in ('call', 'invoke'):
                outs = self.do_call(fr, st, ins[i])
                self.cur = fr
                if op == 'invoke':
                    r = []
                    for (s2, v) in outs:
                        if res:
                            s2.regs[res] = v
                        r.append(('br', x['normal'], s2))
                    return r
                if len(outs) == 1:
                    st, v = outs[0]
                    if res:
                        st.regs[res] = v
                    i += 1
                    continue
                r = []
                for (s2, v) in outs:
                    if res:
                        s2.regs[res] = v
                    r += self.exec_block(fr, b, s2, i + 1)
                return r
            if op == 'br':
                if len(x) == 1:
                    return [('br', x[0], st)]
                c = self.tobool(self.operand(st, x[0]))
                return self.branch(st, [(c, x[1]), (Not(c), x[2])])
            if op == 'switch':
                v, w = self.operand(st, x[0]), x[1]
                if isinstance(v, Undef):
                    v = self.fresh('undef', w)
                if isinstance(v, int):
                    for cv, t in x[3]:
                        if (cv & M(w)) == (v & M(w)):
                            return [('br', t, st)]
                    return [('br', x[2], st)]
                tg, neg = {}, []
                for cv, t in x[3]:
                    c = bv(v, w) == bv(cv, w)
                    tg.setdefault(t, []).append(c)
                    neg.append(Not(c))
                br = [(Or(cs), t) for t, cs in tg.items()]
                if x[2] in tg:
                    br = [(Or(c, And(neg)) if t == x[2] else c, t) for c, t in br]
                else:
                    br.append((And(neg), x[2]))
                return self.branch(st, br)
            if op == 'ret':
                v = self.operand(st, x['ops'][0][0]) if x['ops'] else None
                return [('ret', st, v)]
            if op == 'unreachable':
                return []
            if op == 'resume':
                return []
            self.step(fr, st, op, res, ty, x)
            if st.pc and z3.is_false(st.pc[-1]):
                return []
            i += 1
        raise Inconclusive('block without terminator')

    def branch(self, st, targets):
        live = [(c, t) for c, t in targets if not (c is False or (c is not True and z3.is_false(c)))]
        if len(live) == 1:
            return [('br', live[0][1], st)]
        outs = []
        for k, (c, t) in enumerate(live):
            if c is not True:
                cs = z3.simplify(B(c)) if False else c
                if z3.is_false(B(cs)):
                    continue
            s2 = st.copy() if k < len(live) - 1 else st
            if c is not True:
                s2.pc.append(B(c))
            outs.append(('br', t, s2))
        if not self.cfg.merge or self.cfg.unroll is not None:
            outs = [o for o in outs if self.feasible(o[2])]
        return outs

    def step(self, fr, st, op, res, ty, x):
        R = st.regs
        if op == 'getelementptr':
            if x is None:
                raise Inconclusive('vector gep')
            R[res] = self.gep(st, x)
            return
        ops = x['ops']
        if op == 'load':
            R[res] = self.load_ty(st, self.operand(st, ops[0][0]), ty)
            return
        if op == 'store':
            self.store_ty(st, self.operand(st, ops[1][0]), self.operand(st, ops[0][0]), ops[0][1])
            return
        if op == 'alloca':
            cnt = self.operand(st, ops[0][0]) if ops else 1
            if not isinstance(cnt, int):
                raise Inconclusive('variable-length alloca')
            aty = x['aty']
            r = self.new_region(f'local@{fr.fn.dem.split("(")[0]}:{self.line}', x['asize'] * cnt, self.type_segs(aty), fresh=True)
            R[res] = Ptr(r, 0)
            return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if not isinstance(ty, str):
                raise Inconclusive('vector arithmetic')
            w = int(ty[1:])
            R[res] = self.binop(st, op, self.operand(st, ops[0][0]), self.operand(st, ops[1][0]), w, x)
            return
        if op == 'icmp':
            t = ops[0][1]
            if isinstance(t, list):
                raise Inconclusive('vector compare')
            w = 64 if t == 'ptr' else int(t[1:])
            R[res] = self.icmp(x['pred'], self.operand(st, ops[0][0]), self.operand(st, ops[1][0]), w)
            return
        if op in ('zext', 'sext', 'trunc'):
            v, t = self.operand(st, ops[0][0]), ops[0][1]
            if isinstance(t, list):
                raise Inconclusive('vector cast')
            w, w2 = int(t[1:]), int(ty[1:])
            if isinstance(v, Undef):
                R[res] = Undef(ty)
                return
            if op == 'trunc':
                if isinstance(v, Ptr):
                    v = self.ptr_int(v)
                if w2 == 1:
                    R[res] = self.tobool(v) if not isinstance(v, z3.BitVecRef) else self.tr1(v)
                elif isinstance(v, int):
                    R[res] = v & M(w2)
                else:
                    R[res] = fold(z3.Extract(w2 - 1, 0, v))
                return
            if w == 1:
                if isinstance(v, bool):
                    R[res] = (1 if op == 'zext' else M(w2)) if v else 0
                else:
                    R[res] = z3.If(v, z3.BitVecVal(1 if op == 'zext' else M(w2), w2), z3.BitVecVal(0, w2))
                return
            if isinstance(v, int):
                R[res] = v if op == 'zext' else sgn(v, w) & M(w2)
            else:
                R[res] = z3.ZeroExt(w2 - w, v) if op == 'zext' else z3.SignExt(w2 - w, v)
            return
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            v = self.operand(st, ops[0][0])
            if op == 'ptrtoint' and ty != 'i64':
                v = self.ptr_int(v)
                v = v & M(int(ty[1:])) if isinstance(v, int) else z3.Extract(int(ty[1:]) - 1, 0, v)
            if op == 'freeze' and isinstance(v, Undef):
                v = self.fresh('undef', int(ty[1:])) if ty != 'ptr' and ty != 'i1' else (self.freshb('undef') if ty == 'i1' else v)
            if op == 'bitcast' and ty != ops[0][1]:
                if ty == 'double' and not z3.is_fp(v) and not isinstance(v, float):
                    v = z3.fpBVToFP(bv(v, 64), z3.Float64())
                elif ty == 'i64' and ops[0][1] == 'double':
                    v = self.tobv(v, 64)
                else:
                    raise Inconclusive('bitcast')
            R[res] = v
            return
        if op == 'select':
            c = self.tobool(self.operand(st, ops[0][0]))
            if isinstance(ops[0][1], list):
                raise Inconclusive('vector select')
            w = int(ty[1:]) if isinstance(ty, str) and re.match(r'i\d+$', ty) else None
            R[res] = ite(c, self.operand(st, ops[1][0]), self.operand(st, ops[2][0]), w)
            return
        if op == 'extractvalue':
            v = self.operand(st, ops[0][0])
            for k in x['idx']:
                v = v[k] if not isinstance(v, Undef) else Undef(ty)
            R[res] = v
            return
        if op == 'insertvalue':
            v = self.operand(st, ops[0][0])
            e = self.operand(st, ops[1][0])
            if len(x['idx']) != 1:
                raise Inconclusive('nested insertvalue')
            if isinstance(v, Undef):
                v = tuple(Undef(f[1]) for f in ty[2])
            l = list(v)
            l[x['idx'][0]] = e
            R[res] = tuple(l)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'frem'):
            R[res] = self.fpop(st, op, ops, ty, x)
            return
        if op == 'landingpad':
            R[res] = (NULLPTR, 0)
            return
        if op in ('fence',):
            return
        if op == 'cmpxchg':
            p, e, v = [self.operand(st, o[0]) for o in ops[:3]]
            t = ops[1][1]
            old = self.load_ty(st, p, t)
            w = 64 if t == 'ptr' else int(t[1:])
            ok = self.icmp('eq', old, e, w)
            self.store_ty(st, p, ite(ok, v, old, w), t)
            R[res] = (old, ok)
            return
        raise Inconclusive('instruction ' + op)

    def tr1(self, v):
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
            t, f = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            return v.arg(0) if (t, f) == (1, 0) else Not(v.arg(0)) if (t, f) == (0, 1) else bool(t)
        return z3.Extract(0, 0, v) == 1

    def fpop(self, st, op, ops, ty, x):
        v = self.operand(st, ops[0][0])
        rm = z3.RNE()
        if op in ('sitofp', 'uitofp'):
            w = int(ops[0][1][1:])
            v = bv(self.num(v, w), w)
            return z3.fpSignedToFP(rm, v, z3.Float64()) if op == 'sitofp' else z3.fpUnsignedToFP(rm, v, z3.Float64())
        if op in ('fptosi', 'fptoui'):
            w = int(ty[1:])
            return z3.fpToSBV(z3.RTZ(), tofp(v), z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), tofp(v), z3.BitVecSort(w))
        if op in ('fpext', 'fptrunc'):
            return v
        if ops[0][1] == 'float' or isinstance(v, Undef):
            raise Inconclusive('float32 arithmetic')
        if op == 'fneg':
            return z3.fpNeg(tofp(v))
        a, b = tofp(v), tofp(self.operand(st, ops[1][0]))
        if op == 'fcmp':
            p = x['pred']
            core = {'oeq': lambda: z3.fpEQ(a, b), 'ogt': lambda: z3.fpGT(a, b), 'oge': lambda: z3.fpGEQ(a, b), 'olt': lambda: z3.fpLT(a, b),
                    'ole': lambda: z3.fpLEQ(a, b), 'une': lambda: z3.Not(z3.fpEQ(a, b))}
            if p in core:
                return core[p]()
            raise Inconclusive('fcmp ' + p)
        return {'fadd': lambda: z3.fpAdd(rm, a, b), 'fsub': lambda: z3.fpSub(rm, a, b), 'fmul': lambda: z3.fpMul(rm, a, b),
                'fdiv': lambda: z3.fpDiv(rm, a, b), 'frem': lambda: z3.fpRem(a, b)}[op]()

    def tysize(self, ty):
        if isinstance(ty, str):
            if ty == 'ptr' or ty == 'double':
                return 8
            if ty == 'float':
                return 4
            if ty.startswith('i'):
                return (int(ty[1:]) + 7) // 8
            raise Inconclusive('type ' + ty)
        if ty[0] == 's':
            return ty[1]
        if ty[0] == 'a':
            return ty[1] * ty[2]
        raise Inconclusive('vector type')

    def load_ty(self, st, p, ty):
        if isinstance(ty, list) and ty[0] == 's':
            return tuple(self.load_ty(st, self.padd(p, o), ft) for o, ft in ty[2])
        if isinstance(ty, list):
            raise Inconclusive('aggregate/vector load')
        v = self.load(st, p, ty, self.tysize(ty))
        if ty == 'i1':
            return self.tobool(v)
        if ty == 'ptr':
            return int_to_ptr(v) if not isinstance(v, Undef) else v
        if ty == 'double':
            if isinstance(v, z3.BitVecRef):
                return z3.fpBVToFP(v, z3.Float64())
            if isinstance(v, int) and not isinstance(v, bool):
                import struct
                return struct.unpack('<d', struct.pack('<Q', v))[0]
            return v
        if ty == 'float':
            return Undef('float')
        if z3.is_fp(v) or isinstance(v, float):
            return self.tobv(v, 64)
        return v

    def store_ty(self, st, p, v, ty):
        if isinstance(ty, list) and ty[0] == 's':
            for k, (o, ft) in enumerate(ty[2]):
                self.store_ty(st, self.padd(p, o), v[k] if isinstance(v, tuple) else (NULLPTR if ft == 'ptr' else 0), ft)
            return
        if isinstance(ty, list):
            raise Inconclusive('aggregate/vector store')
        n = self.tysize(ty)
        if ty == 'i1':
            v = self.tobv(v, 8)
        if isinstance(v, Undef):
            if ty == 'ptr':
                v = Ptr(NULL, self.fresh('undef', 64))
            elif ty == 'double':
                v = z3.FP(f'undef!{uid()}', z3.Float64())
            else:
                v = self.fresh('undef', 8 * n)
        self.store(st, p, v, ty, n)

    def padd(self, p, k):
        if isinstance(k, int) and k == 0:
            return p
        p = int_to_ptr(p)
        return Ptr([(g, r, addoff(o, k), s if not isinstance(k, int) else (s if s is not None and len(r.segs) == 1 else (s if not isinstance(o, int) else None))) for g, r, o, s in p.alts])

    # ---------- calls
    def do_call(self, fr, st, ins):
        op, res, ty, line, nm, x = ins
        f = x['fn']
        args = []
        for (o, t, byval) in x['args']:
            if o[0] == 'md':
                args.append(None)
                continue
            v = self.operand(st, o)
            if byval:
                r = self.new_region('byval', byval, (), fresh=True)
                self.copy_obj(st, Ptr(r, 0), int_to_ptr(v), byval)
                v = Ptr(r, 0)
            args.append(v)
        types = [t for (_, t, _) in x['args']]
        if f[0] == 'g':
            return self.call(fr, st, f[1], args, types, ty, x, line)
        if f[0] == 'asm':
            raise Inconclusive('inline assembly')
        p = int_to_ptr(self.operand(st, f))
        outs = []
        alts = [a for a in p.alts]
        fs = [a for a in alts if a[1].kind == 'func']
        if not fs:
            raise Inconclusive(f'indirect call through {p}')
        for (g, r, o, s) in alts:
            if r.kind != 'func':
                self.oblige_g(st, g, 'mem', 'call through invalid pointer', False)
        for (g, r, o, s) in fs:
            s2 = st.copy() if len(fs) > 1 else st
            if g is not True:
                s2.pc.append(B(g))
            outs += self.call(fr, s2, r.name, list(args), types, ty, x, line)
        if len(outs) > 1 and self.cfg.merge:
            s, v = self.merge_rets(outs)
            return [(s, v)]
        return outs

    def lookup(self, name, dem):
        c = self.contracts
        h = c.get(name) or c.get(dem)
        if h:
            return h
        b = base_name(dem)
        h = c.get(b)
        if h:
            return h
        for pat, h in self.patterns:
            if pat.search(dem):
                return h
        return None

    def call(self, fr, st, name, args, types, ty, x, line):
        dem = self.prog.dem(name) if not x.get('intr') else name
        h = self.lookup(name, dem)
        if h is not None:
            self.used_models.add(getattr(h, 'label', None) or base_name(dem))
            info = {'name': name, 'dem': dem, 'types': types, 'ty': ty, 'line': line, 'frame': fr}
            r = h(self, st, args, info)
            if isinstance(r, list):
                return r
            return [(st, r)]
        if x.get('intr'):
            raise Inconclusive('intrinsic ' + name)
        fn = self.prog.funcs.get(name)
        if fn is None:
            raise Inconclusive(f'no contract, model or body for {dem}')
        return self.inline(fr, st, fn, args, line)

    def inline(self, fr, st, fn, args, line=0):
        depth = (fr.depth if fr else 0) + 1
        if depth > self.cfg.max_depth:
            raise Inconclusive(f'call depth at {fn.dem} (recursion without contract)')
        self.inlined.add(base_name(fn.dem))
        key = (fr.key if fr else ()) + ((fn.name, line),)
        nf = Frame(fn, depth, key)
        saved, savedcur, savedline = st.regs, self.cur, self.line
        st.regs = {}
        # a constructor of a known class gives its fresh region a type (array members)
        for a, (an, at, aname, bv_) in zip(args, fn.args):
            st.regs[an] = a
        nf.varargs = args[len(fn.args):]
        if fn.args and fn.args[0][2] == 'this' and isinstance(args[0], Ptr):
            self.type_this(st, fn, args[0])
        outs = self.run_function(nf, st)
        self.cur, self.line = savedcur, savedline
        if not outs:
            return []
        if (self.cfg.merge is True or self.cfg.merge and fr is not None) and len(outs) > 1:
            outs = [self.merge_rets(outs)]
        for k, (s, v) in enumerate(outs):
            s.regs = dict(saved) if len(outs) > 1 else saved
        return outs

    def type_this(self, st, fn, p):
        b = base_name(fn.dem)
        cls = b.rsplit('::', 1)[0] if '::' in b else None
        if not cls or len(p.alts) != 1:
            return
        g, r, o, s = p.alts[0]
        if isinstance(r, Elem) or r.kind != 'obj' or not r.fresh or r.segs or r.cache or r.id in st.mem or not same(o, 0):
            return
        d = self.prog.types.get(cls)
        if d and isinstance(r.size, int) and d['size'] == r.size:
            r.type = cls
            r.segs = self.di_segs(cls)

    def run_function(self, fr, st):
        fn = fr.fn
        if fn.irreducible:
            raise Inconclusive(f'irreducible control flow in {fn.dem}')
        outs = self.run_region(fr, fn.entry, [(None, st)], None, None)
        return [(s, v) for (k, s, v) in outs if k == 'ret']

    def merge_rets(self, outs):
        st, v = outs[0]
        for (s2, v2) in outs[1:]:
            st, v = self.merge2(st, s2, v, v2)
        return st, v

    def run_region(self, fr, start, entry, blocks, header):
        """execute the blocks (acyclic, inner loops collapsed) from start. entry: [(pred, state)].
        returns exits: ('br', (pred, target), st) leaving the region or going back to header, and ('ret', st, v)"""
        fn = fr.fn
        pend = {start: list(entry)}
        heap = [fn.rpo[start]]
        inheap = {start}
        exits = []
        first = True
        while heap:
            b = fn.order[heapq.heappop(heap)]
            inheap.discard(b)
            inc = pend.pop(b, [])
            if not inc:
                continue
            for (pred, s) in inc:
                if pred is not None:
                    self.do_phis(fr, b, pred, s)
            sts = [s for (_, s) in inc]
            self.cur = fr
            if len(sts) > 1 and (self.cfg.merge is True or self.cfg.merge == 'loops' and b in fn.loops):
                m = sts[0]
                for s in sts[1:]:
                    m, _ = self.merge2(m, s, None, None)
                sts = [m]
            isloop = b in fn.loops and b != header
            for s in sts:
                if isloop:
                    outs = self.exec_loop(fr, fn.loops[b], s)
                else:
                    outs = []
                    for o in self.exec_block(fr, b, s):
                        if o[0] == 'br':
                            outs.append(('br', (b, o[1]), o[2]))
                        else:
                            outs.append(o)
                for o in outs:
                    if o[0] == 'ret':
                        exits.append(o)
                        continue
                    _, (pr, t), s2 = o
                    if t == header or (blocks is not None and t not in blocks):
                        exits.append(o)
                        continue
                    pend.setdefault(t, []).append((pr, s2))
                    if t not in inheap:
                        inheap.add(t)
                        heapq.heappush(heap, fn.rpo[t])
        return exits

    def do_phis(self, fr, b, pred, st):
        vals = []
        pred = fr.fn.orig.get(pred, pred)
        for ins in fr.fn.blocks[b]:
            if ins[0] != 'phi':
                break
            for (o, pb) in ins[5]:
                if pb == pred:
                    vals.append((ins[1], self.operand(st, o)))
                    break
        for k, v in vals:
            st.regs[k] = v

    def phis(self, fr, b):
        out = []
        for ins in fr.fn.blocks[b]:
            if ins[0] != 'phi':
                break
            out.append((ins[1], ins[2], ins[4]))
        return out

    # ---------- merging
    def merge2(self, a, b, va, vb):
        n = 0
        la, lb = a.pc, b.pc
        while n < len(la) and n < len(lb) and (la[n] is lb[n] or la[n].eq(lb[n])):
            n += 1
        ra, rb = la[n:], lb[n:]
        c = And(ra)
        d = And(rb)
        if c is True:
            # a's condition is implied by b's prefix: distinguish by b
            c = Not(d)
        r = State()
        if len(ra) == 1 and len(rb) == 1 and (Not(ra[0]).eq(rb[0]) or Not(rb[0]).eq(ra[0])):
            r.pc = la[:n]
        else:
            r.pc = la[:n]
            o = Or(And(ra), And(rb))
            if o is not True:
                # factor: (x & y) | (x & ~y)
                r.pc.append(B(o))
        # registers
        r.regs = dict(a.regs)
        for k, y in b.regs.items():
            x = r.regs.get(k, None)
            if x is None and k not in r.regs:
                r.regs[k] = y
            elif x is not y:
                try:
                    r.regs[k] = ite(c, x, y) if not (isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool)) else (x if x == y else self.ite_const(fr_w(self, k), c, x, y))
                except Inconclusive:
                    r.regs[k] = Undef('?')
        # memory
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y:
                r.mem[k] = x
            elif x is None or y is None or True:
                reg = self.region_of(k)
                r.mem[k] = self.merge_content(c, reg, a, b, x, y)
        for k in set(a.zeros) | set(b.zeros):
            l = list(a.zeros.get(k, ()))
            for z in b.zeros.get(k, ()):
                if not any(same(z, q) for q in l):
                    l.append(z)
            r.zeros[k] = tuple(l[-16:])
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if x is y or same(x, y):
                r.ghost[k] = x
            elif isinstance(x, tuple) and isinstance(y, tuple) and (x and isinstance(x[0], tuple) or y and isinstance(y[0], tuple)):
                # event logs: (cond, event...) common prefix kept
                m = 0
                while m < len(x) and m < len(y) and x[m] is y[m]:
                    m += 1
                r.ghost[k] = x[:m] + tuple((And(c, e[0]),) + e[1:] for e in x[m:]) + tuple((And(d, e[0]),) + e[1:] for e in y[m:])
            else:
                w = 64
                r.ghost[k] = ite(c, x, y, w if not (z3.is_bool(x) or isinstance(x, bool)) else None)
        v = None
        if va is not None or vb is not None:
            if va is None:
                v = vb
            elif vb is None:
                v = va
            elif isinstance(va, int) and isinstance(vb, int) and not isinstance(va, bool) and va != vb:
                t = self.cur.fn.ret if self.cur else 'i64'
                w = int(t[1:]) if isinstance(t, str) and t.startswith('i') else 64
                v = z3.If(B(c), bv(va, w), bv(vb, w))
            else:
                v = ite(c, va, vb)
        return r, v

    def ite_const(self, w, c, x, y):
        if w is None:
            raise Inconclusive('untyped constant merge')
        return z3.If(B(c), bv(x, w), bv(y, w))

    def region_of(self, rid):
        return self.regions[rid]

    def merge_content(self, c, reg, a, b, x, y):
        cells = {}
        ks = set(x.cells if x else ()) | set(y.cells if y else ())
        for off in sorted(ks):
            p = x.cells.get(off) if x else None
            q = y.cells.get(off) if y else None
            if p is q or (p and q and p[0] == q[0] and same(p[1], q[1])):
                cells[off] = p
                continue
            n = (p or q)[0]
            if p and q and p[0] != q[0]:
                n = min(p[0], q[0])
            if isinstance(reg, Family):
                av = p[1] if p else self.fam_cell(a, reg, off, n)
                bvv = q[1] if q else self.fam_cell(b, reg, off, n)
                cells[off] = (n, z3.If(B(c), av, bvv))
                continue
            other = (q or p)[1]
            hint = 'ptr' if isinstance((p or q)[1], Ptr) else None
            av = p[1] if p and p[0] == n else self.cell(a, reg, off, n, hint)
            bvv = q[1] if q and q[0] == n else self.cell(b, reg, off, n, hint)
            cells[off] = (n, ite(c, av, bvv, 8 * n))
        segs = {}
        for s in set(x.segs if x else ()) | set(y.segs if y else ()):
            seg = next(q for q in reg.segs if q.start == s)
            p = x.segs.get(s) if x else None
            q = y.segs.get(s) if y else None
            if p is None:
                p = self.seg_array(a, reg, seg)
            if q is None:
                q = self.seg_array(b, reg, seg)
            segs[s] = p if p.eq(q) else z3.If(B(c), p, q)
        return Content(cells, segs)

    # ---------- loops
    def exec_loop(self, fr, loop, st):
        import loops
        return loops.exec_loop(self, fr, loop, st)

    # ---------- misc helpers used by models and specs
    def copy_obj(self, st, dst, src, n):
        """copy n (constant) bytes cell by cell between object regions"""
        import models
        models.memcpy(self, st, dst, src, n)

    def rd(self, st, region, ty, path, n=None):
        """read a member (by name) of an object region / family element"""
        off, size, t = self.prog.fieldpath(ty, path) if isinstance(path, str) else (path, n, None)
        irt = 'ptr' if t and t.endswith('*') else 'double' if t == 'double' else None
        if isinstance(region, Elem):
            return self.load1(st, region, off, None, irt or f'i{8*size}', size, True)
        return self.cell(st, region, off, n or size, irt)

    def wr(self, st, region, ty, path, v):
        off, size, t = self.prog.fieldpath(ty, path)
        if isinstance(region, Elem):
            self.store1(st, region, off, None, v, None, size, True)
        else:
            self.set_cell(st, region, off, size, v)


def fr_w(ex, reg):
    """bit width of an SSA register of the current function"""
    f = ex.cur.fn if ex.cur else None
    if f is None:
        return None
    tw = getattr(f, '_regw', None)
    if tw is None:
        tw = f._regw = {}
        for b, ins in f.blocks.items():
            for i in ins:
                if i[1] and isinstance(i[2], str) and re.match(r'i\d+$', i[2]):
                    tw[i[1]] = int(i[2][1:])
    return tw.get(reg)
