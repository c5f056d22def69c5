"""Trusted models of library functions (libc, operator new/delete, a few libstdc++ containers, locks).
Every model that a proof uses is listed in the evidence (trusted_base)."""
import re
import z3
from vc import *
import vc

MODELS = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        f.label = names[0]
        return f
    return d


def pattern(rx, label=None):
    def d(f):
        f.label = label or rx
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def install(ex):
    ex.contracts.update(MODELS)
    ex.patterns = list(ex.patterns) + PATTERNS


def one(ex, p, what):
    p = int_to_ptr(p)
    alts = [a for a in p.alts if not (a[0] is not True and z3.is_false(B(a[0])))]
    return alts


# ---------------------------------------------------------------- allocation
def alloc(ex, st, size, name, zero=False, untyped=True, can_fail=False):
    if isinstance(size, int) and untyped:
        r = ex.new_region(name, size, [], fresh=True)
    else:
        r = ex.new_region(name, size, [Seg(0, size, None if not zero else 8)], fresh=True)
    r.heap = True
    st.mem[r.id] = Content({}, {})
    p = Ptr(r, 0)
    if can_fail:
        b = ex.freshb('alloc_fails')
        return Ptr([(b, NULL, 0, None), (Not(b), r, 0, None)])
    return p


@model('operator new', 'operator new(unsigned long)', '_Znwm', '_ZnwmRKSt9nothrow_t')
def m_new(ex, st, a, c):
    return alloc(ex, st, a[0], f'new@{ex.loc()}')


@model('operator new[]', '_Znam')
def m_newa(ex, st, a, c):
    return alloc(ex, st, a[0], f'new[]@{ex.loc()}', untyped=False)


@model('operator delete', 'operator delete[]', '_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free')
def m_free(ex, st, a, c):
    return None


@model('malloc')
def m_malloc(ex, st, a, c):
    ex.assumptions.add('malloc/realloc succeed (no out-of-memory paths)')
    return alloc(ex, st, a[0], f'malloc@{ex.loc()}', untyped=False)


@model('calloc')
def m_calloc(ex, st, a, c):
    n = ex.binop(st, 'mul', a[0], a[1], 64, {})
    p = alloc(ex, st, n, f'calloc@{ex.loc()}', untyped=False)
    memset(ex, st, p, 0, n)
    return p


@model('realloc')
def m_realloc(ex, st, a, c):
    ex.assumptions.add('malloc/realloc succeed (no out-of-memory paths)')
    p = alloc(ex, st, a[1], f'realloc@{ex.loc()}', untyped=False)
    r = p.alts[0][1]
    old = int_to_ptr(a[0])
    alts = [x for x in old.alts if x[1].kind != 'null']
    if len(alts) == 1:
        g, q, o, s = alts[0]
        if len(q.segs) == 1 and same(o, 0):
            w = q.segs[0].w or 8
            r.segs[0].w = w
            src = ex.seg_array(st, q, q.segs[0])
            dst = ex.seg_array(st, r, r.segs[0])
            if not isinstance(w, Family):
                n = z3.If(z3.ULT(bv(a[1], 64), bv(q.size, 64)), bv(a[1], 64), bv(q.size, 64))
                n = n if w == 8 else z3.UDiv(n, z3.BitVecVal(w // 8, 64))
                na = ex.fresh_array('realloc', w)
                ex.set_seg(st, r, r.segs[0], na)
                ex.assume(st, Forall(lambda k: Implies(And(g, z3.ULT(k, n)), z3.Select(na, k) == z3.Select(src, k)), roots_of(na) | roots_of(src)))
                for z in st.zeros.get(q.id, ()):
                    ex.note_zero(st, r, z)
    return p


# ---------------------------------------------------------------- memory blocks
def memset(ex, st, dst, val, n):
    dst = int_to_ptr(dst)
    val = val & 255 if isinstance(val, int) else (z3.Extract(7, 0, val) if val.size() > 8 else val)
    for (g, r, o, s) in one(ex, dst, 'memset'):
        if r.kind == 'null':
            ex.oblige_g(st, g, 'mem', 'memset on null', ex.eq(n, 0, 64))
            continue
        if isinstance(r, Elem):
            raise Inconclusive('memset on family object')
        if s is None and isinstance(o, int) and r.segs:
            s = r.seg_at(o)
            if s is not None and isinstance(n, int) and isinstance(s.size, int) and (o + n > s.start + s.size):
                s = None   # spans members: cell by cell below
        if s is None and len(r.segs) == 1 and r.segs[0].start == 0 and not isinstance(n, int):
            s = r.segs[0]
        if s is None:
            if not isinstance(n, int) or not isinstance(o, int):
                raise Inconclusive('memset on object with symbolic size')
            ex.oblige_g(st, g, 'mem', f'memset within {r.name}', ex.inb(o, n, 0, r.size))
            k = o
            end = o + n
            while k < end:
                sg = next((q for q in r.segs if isinstance(q.size, int) and q.start == k and k + q.size <= end), None)
                if sg is not None:
                    if sg.w is None:
                        sg.w = 8
                    v = val if isinstance(val, int) and val == 0 else None
                    if v is None:
                        raise Inconclusive('memset non-zero across members')
                    a = z3.K(BV64, z3.BitVecVal(0, 64 if isinstance(sg.w, Family) else sg.w))
                    if g is not True:
                        a = z3.If(B(g), a, ex.seg_array(st, r, sg))
                    ex.set_seg(st, r, sg, a)
                    ex.note_zero(st, r, k)
                    k += sg.size
                    continue
                m = 8 if k % 8 == 0 and k + 8 <= end and not any(k < q.start < k + 8 for q in r.segs) else 1
                v = val * 0x0101010101010101 if m == 8 and isinstance(val, int) else (val if m == 1 else ex.concat([val] * 8, 8))
                if g is not True:
                    v = ite(g, v, ex.cell(st, r, k, m), 8 * m)
                ex.set_cell(st, r, k, m, v)
                k += m
            continue
        ex.oblige_g(st, g, 'mem', f'memset within {r.name}', rng(ex, o, n, s))
        if isinstance(n, int) and n <= 0:
            continue
        if s.w is None:
            s.w = 8
        if isinstance(s.w, Family):
            raise Inconclusive('memset on pointer array')
        a = ex.seg_array(st, r, s)
        lo = suboff(o, s.start)
        wb = s.w // 8
        v = val if wb == 1 else ex.concat([val] * wb, 8)
        whole = same(lo, 0) and same(n, s.size)
        if wb > 1:
            lo = ex.eidx(lo, wb)
            cnt = ex.eidx(n, wb)
        else:
            cnt = n
        if whole and g is True:
            na = z3.K(BV64, bv(v, s.w))
        elif isinstance(cnt, int) and cnt <= 16:
            na = a
            for i in range(cnt):
                vv = bv(v, s.w) if g is True else z3.If(B(g), bv(v, s.w), z3.Select(a, bv(addoff(lo, i), 64)))
                na = z3.Store(na, bv(addoff(lo, i), 64), vv)
        else:
            na = ex.fresh_array('memset', s.w)
            hi = bv(addoff(lo, cnt), 64)
            lo_ = bv(lo, 64)
            ex.assume(st, Forall(lambda k: z3.Select(na, k) == z3.If(B(And(g, z3.UGE(k, lo_), z3.ULT(k, hi))), bv(v, s.w), z3.Select(a, k)), roots_of(na) | roots_of(a)))
        ex.set_seg(st, r, s, na)
        if isinstance(val, int) and val == 0:
            ex.note_zero(st, r, o)
    return dst


def rng(ex, o, n, s):
    """n bytes at o inside segment s (n may be 0)"""
    off = suboff(o, s.start)
    if isinstance(off, int) and isinstance(n, int) and isinstance(s.size, int):
        return off + n <= s.size
    return And(z3.ULE(bv(off, 64), bv(s.size, 64)), z3.ULE(bv(n, 64), bv(s.size, 64) - bv(off, 64)))


def as_seg(ex, r, o, s, n=None):
    if s is None and isinstance(o, int) and r.segs:
        s = r.seg_at(o)
    if s is None and len(r.segs) == 1 and r.segs[0].start == 0:
        s = r.segs[0]
    return s


def memcpy(ex, st, dst, src, n):
    dst, src = int_to_ptr(dst), int_to_ptr(src)
    if isinstance(n, int) and n == 0:
        return dst
    da, sa = one(ex, dst, 'memcpy'), one(ex, src, 'memcpy')
    for (g, r, o, s) in da:
        if r.kind == 'null':
            ex.oblige_g(st, g, 'mem', 'memcpy to null', ex.eq(n, 0, 64))
            continue
        for (g2, r2, o2, s2) in sa:
            gg = And(g, g2)
            if gg is False:
                continue
            if r2.kind == 'null':
                ex.oblige_g(st, gg, 'mem', 'memcpy from null', ex.eq(n, 0, 64))
                continue
            copy1(ex, st, gg, r, o, s, r2, o2, s2, n)
    return dst


def copy1(ex, st, g, r, o, s, r2, o2, s2, n):
    ds = as_seg(ex, r, o, s) if not isinstance(r, Elem) else None
    ss = as_seg(ex, r2, o2, s2) if not isinstance(r2, Elem) else None
    if isinstance(n, int) and isinstance(o, int) and isinstance(o2, int) and (ds is None or ss is None or r.fresh and False) and not isinstance(r, Elem) and not isinstance(r2, Elem):
        # object copy, cell by cell
        ex.oblige_g(st, g, 'mem', f'copy within {r.name}', ex.inb(o, n, 0, r.size))
        ex.oblige_g(st, g, 'mem', f'copy within {r2.name}', ex.inb(o2, n, 0, r2.size))
        if not r.segs and r2.segs and r.fresh and o == 0 and o2 == 0 and same(r.size, r2.size):
            r.segs = [Seg(q.start, q.size, q.w) for q in r2.segs]
        k = 0
        while k < n:
            q2 = next((q for q in r2.segs if q.start == o2 + k and isinstance(q.size, int) and k + q.size <= n), None)
            q1 = next((q for q in r.segs if q.start == o + k), None)
            if q2 is not None and q1 is not None and q1.w == q2.w:
                a = ex.seg_array(st, r2, q2)
                if g is not True:
                    a = z3.If(B(g), a, ex.seg_array(st, r, q1))
                ex.set_seg(st, r, q1, a)
                k += q2.size
                continue
            c = st.mem.get(r2.id)
            m = None
            for src in ((c.cells if c else {}), r2.cache):
                x = src.get(o2 + k)
                if x is not None and k + x[0] <= n:
                    m = x[0]
                    break
            if m is None:
                m = 8 if k + 8 <= n and (o2 + k) % 8 == 0 else 4 if k + 4 <= n and (o2 + k) % 4 == 0 else 1
                if r2.type:
                    for nm, (fo, fs, ft) in ex.prog.fields(r2.type).items():
                        if fo == o2 + k and fs in (1, 2, 4, 8) and k + fs <= n:
                            m = fs
            ty = None
            if m == 8 and ((o2 + k) in r2.ptr_init or (r2.type and any(fo == o2 + k and ft.endswith('*') for (fo, fs, ft) in ex.prog.fields(r2.type).values()))):
                ty = 'ptr'
            v = ex.load1(st, r2, o2 + k, None, ty or f'i{8*m}', m, g)
            ex.store1(st, r, o + k, None, v, ty, m, g)
            k += m
        return
    if ds is None or ss is None:
        # freshly allocated untyped block used as a byte buffer
        if ds is None and ss is not None and not isinstance(r, Elem) and r.fresh and not r.segs and r.id in st.mem and not st.mem[r.id].cells and same(o, 0):
            r.segs = [Seg(0, r.size, ss.w)]
            ds = r.segs[0]
        else:
            raise Inconclusive(f'memcpy {r2.name} -> {r.name}')
    if ds.w is None:
        ds.w = ss.w or 8
    if ss.w is None:
        ss.w = ds.w
    if ds.w != ss.w and not (ds.w == 8 or ss.w == 8):
        raise Inconclusive('memcpy between arrays of different element types')
    ex.oblige_g(st, g, 'mem', f'copy: write within {r.name}', Or(ex.eq(n, 0, 64), rng(ex, o, n, ds)))
    ex.oblige_g(st, g, 'mem', f'copy: read within {r2.name}', Or(ex.eq(n, 0, 64), rng(ex, o2, n, ss)))
    if ds.w != ss.w:
        if isinstance(n, int) and n <= 64:
            for k in range(n):
                v = ex.seg_load(st, r2, ss, suboff(addoff(o2, k), ss.start), 1, 'i8')
                ex.seg_store(st, r, ds, suboff(addoff(o, k), ds.start), v, 1, g)
            return
        raise Inconclusive('memcpy between arrays of different element widths')
    isf = isinstance(ds.w, Family)
    wb = 8 if isf else ds.w // 8
    a, b = ex.seg_array(st, r, ds), ex.seg_array(st, r2, ss)
    lo, so = suboff(o, ds.start), suboff(o2, ss.start)
    lo, so, cnt = (ex.eidx(lo, wb), ex.eidx(so, wb), ex.eidx(n, wb)) if wb > 1 else (lo, so, n)
    if isinstance(cnt, int) and cnt <= 16:
        na = a
        for i in range(cnt):
            v = z3.Select(b, bv(addoff(so, i), 64))
            if g is not True:
                v = z3.If(B(g), v, z3.Select(a, bv(addoff(lo, i), 64)))
            na = z3.Store(na, bv(addoff(lo, i), 64), v)
    else:
        na = ex.fresh_array('copy', a.sort().range().size())
        lo_, so_, hi = bv(lo, 64), bv(so, 64), bv(addoff(lo, cnt), 64)
        n_ = bv(cnt, 64)
        ex.assume(st, Forall(lambda k: z3.Select(na, k) == z3.If(B(And(g, z3.ULT(k - lo_, n_))), z3.Select(b, k - lo_ + so_), z3.Select(a, k)),
                             roots_of(na) | roots_of(a)))
        ex.assume(st, Forall(lambda k: Implies(And(g, z3.ULT(k - so_, n_)), z3.Select(na, k - so_ + lo_) == z3.Select(b, k)), roots_of(b)))
    ex.set_seg(st, r, ds, na)
    if not isf and ds.w == 8:
        for z in st.zeros.get(r2.id, ()):
            ex.note_zero(st, r, addoff(suboff(z, o2), o))


@pattern(r'^llvm\.(memcpy|memmove)\.', 'memcpy/memmove')
def m_memcpy_i(ex, st, a, c):
    memcpy(ex, st, a[0], a[1], a[2])


@model('memcpy', 'memmove')
def m_memcpy(ex, st, a, c):
    memcpy(ex, st, a[0], a[1], a[2])
    return a[0]


@pattern(r'^llvm\.memset\.', 'memset')
def m_memset_i(ex, st, a, c):
    memset(ex, st, a[0], a[1], a[2])


@model('memset')
def m_memset(ex, st, a, c):
    memset(ex, st, a[0], a[1], a[2])
    return a[0]


# ---------------------------------------------------------------- intrinsics
@pattern(r'^llvm\.(smax|smin|umax|umin)\.', 'llvm.min/max')
def m_minmax(ex, st, a, c):
    w = int(c['ty'][1:])
    k = c['name'].split('.')[1]
    pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[k]
    return ite(ex.icmp(pr, a[0], a[1], w), a[0], a[1], w)


@pattern(r'^llvm\.abs\.', 'llvm.abs')
def m_abs(ex, st, a, c):
    w = int(c['ty'][1:])
    return ite(ex.icmp('slt', a[0], 0, w), ex.binop(st, 'sub', 0, a[0], w, {}), a[0], w)


@model('abs', 'labs', 'llabs')
def m_abs2(ex, st, a, c):
    return m_abs(ex, st, a, c)


@pattern(r'^llvm\.bswap\.', 'llvm.bswap')
def m_bswap(ex, st, a, c):
    w = int(c['ty'][1:])
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)])


@pattern(r'^llvm\.(umul|smul|uadd|sadd|usub|ssub)\.with\.overflow', 'llvm.*.with.overflow')
def m_ovf(ex, st, a, c):
    w = int(re.search(r'i(\d+)$', c['name']).group(1))
    k = c['name'].split('.')[1]
    x, y = bv(a[0], w), bv(a[1], w)
    sg = k[0] == 's'
    op = k[1:]
    r = ex.binop(st, op, a[0], a[1], w, {})
    if isinstance(a[0], int) and isinstance(a[1], int):
        A, C = (sgn(a[0], w), sgn(a[1], w)) if sg else (a[0] & M(w), a[1] & M(w))
        t = A * C if op == 'mul' else A + C if op == 'add' else A - C
        return (r, not ((-(1 << (w - 1)) <= t < (1 << (w - 1))) if sg else 0 <= t < (1 << w)))
    if op == 'mul':
        ok = z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y)) if sg else z3.BVMulNoOverflow(x, y, False)
    elif op == 'add':
        ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)) if sg else z3.BVAddNoOverflow(x, y, False)
    else:
        ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if sg else z3.UGE(x, y)
    return (r, z3.Not(ok))


@pattern(r'^llvm\.(fshl|fshr)\.', 'llvm.fsh')
def m_fsh(ex, st, a, c):
    w = int(c['ty'][1:])
    x, y, s = bv(a[0], w), bv(a[1], w), bv(a[2], w)
    s = z3.URem(s, z3.BitVecVal(w, w))
    cc = z3.Concat(x, y)
    s2 = z3.ZeroExt(w, s)
    if 'fshl' in c['name']:
        return fold(z3.simplify(z3.Extract(2 * w - 1, w, cc << s2)))
    return fold(z3.simplify(z3.Extract(w - 1, 0, z3.LShR(cc, s2))))


@pattern(r'^llvm\.(expect|launder\.invariant|strip\.invariant|ssa\.copy|annotation)', 'llvm.expect')
def m_expect(ex, st, a, c):
    return a[0]


@pattern(r'^llvm\.(assume|stacksave|stackrestore|dbg|donothing|prefetch|va_start|va_end|va_copy|invariant|sideeffect|trap|var\.annotation)', 'llvm.no-op')
def m_noop(ex, st, a, c):
    if 'trap' in c['name']:
        ex.oblige(st, 'assert', 'trap not reached', False)
        return []
    return NULLPTR if c['ty'] == 'ptr' else None


@pattern(r'^llvm\.(objectsize|is\.constant)', 'llvm.objectsize')
def m_objsize(ex, st, a, c):
    return M(64) if 'objectsize' in c['name'] else False


@pattern(r'^llvm\.(fmuladd|fabs|floor|ceil|round|rint|trunc|sqrt|pow|log|exp)', 'llvm floating point')
def m_fp(ex, st, a, c):
    k = c['name'].split('.')[1]
    rm = z3.RNE()
    if k == 'fmuladd':
        return z3.fpAdd(rm, z3.fpMul(rm, tofp(a[0]), tofp(a[1])), tofp(a[2]))
    if k == 'fabs':
        return z3.fpAbs(tofp(a[0]))
    return z3.FP(f'{k}!{uid()}', z3.Float64())


@pattern(r'^__assert_fail', '__assert_fail')
def m_assert(ex, st, a, c):
    ex.oblige(st, 'assert', 'assert() holds', False)
    return []


@model('abort', 'exit', '_exit', 'std::terminate', '__cxa_throw', 'std::__throw_length_error', 'std::__throw_out_of_range',
       'std::__throw_out_of_range_fmt', 'std::__throw_logic_error', 'std::__throw_bad_alloc', 'std::__throw_bad_array_new_length',
       'std::__throw_bad_function_call', '__cxa_rethrow', '__clang_call_terminate', 'std::__throw_system_error', 'std::__throw_bad_optional_access')
def m_abort(ex, st, a, c):
    ex.oblige(st, 'throw', f'{base_name(c["dem"])} not reached', False)
    return []


@model('__cxa_atexit', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_begin_catch', '__cxa_end_catch')
def m_guard(ex, st, a, c):
    return 1 if 'acquire' in c['dem'] else 0


# ---------------------------------------------------------------- C strings
def cseg(ex, p, what):
    """single-target char pointer -> (region, seg, offset)"""
    alts = [a for a in int_to_ptr(p).alts if a[0] is True or not z3.is_false(B(a[0]))]
    return alts


def strlen1(ex, st, r, o, s, g, what='strlen'):
    """length of the C string at r+o; obliges a terminator inside the segment"""
    if isinstance(r, Elem):
        raise Inconclusive('string inside a family object')
    s = as_seg(ex, r, o, s)
    if s is None and isinstance(r.size, int) and r.size == 0:
        raise Inconclusive('strlen on unsized region')
    if s is None:
        if not r.segs and isinstance(r.size, int) and r.fresh and not r.cache and (r.id not in st.mem or not st.mem[r.id].cells):
            r.segs = [Seg(0, r.size, 8)]
            s = r.segs[0]
        else:
            raise Inconclusive(f'strlen on object {r.name}')
    if s.w is None:
        s.w = 8
    if s.w != 8:
        raise Inconclusive('strlen on wide array')
    lo = suboff(o, s.start)
    if s.start in r.data and isinstance(lo, int) and (r.id not in st.mem or s.start not in st.mem[r.id].segs):
        d = r.data[s.start]
        if 0 in d[lo:]:
            return d.index(0, lo) - lo
    if s.start in r.data:
        cz = [i for i, x in enumerate(r.data[s.start]) if x == 0]
        for z in cz[:4]:
            ex.note_zero(st, r, z + s.start)
    a = ex.seg_array(st, r, s)
    key = ('strlen', a.get_id(), lo if isinstance(lo, int) else lo.get_id())
    hit = ex.strcache.get(key)
    lo_ = bv(lo, 64)
    zs = [bv(suboff(z, s.start), 64) for z in st.zeros.get(r.id, ())]
    size = bv(s.size, 64)
    if what is not None:
        ex.oblige_g(st, g, 'mem', f'{what}: NUL-terminated string in {r.name}',
                    Or(*[And(z3.UGE(z, lo_), z3.ULT(z, size), z3.Select(a, z) == 0) for z in zs]) if zs else False)
    if hit is not None and hit[0] < len(ex.facts) and ex.facts[hit[0]] is hit[2]:
        return hit[1]
    end = end_ = ex.fresh('end')
    n = suboff(end, lo)
    facts = [z3.ULE(lo_, end_), z3.ULT(end_, size), z3.Select(a, end_) == 0]
    for z in zs:
        facts.append(Implies(And(z3.UGE(z, lo_), z3.Select(a, z) == 0), z3.ULE(end_, z)))
    # total definition: conditional on a terminator existing (obliged above)
    exists = Or(*[And(z3.UGE(z, lo_), z3.ULT(z, size), z3.Select(a, z) == 0) for z in zs]) if zs else True
    f = B(Implies(exists, z3.And([B(x) for x in facts])))
    if len(ex.strcache) > 4000:
        ex.strcache.clear()
    ex.strcache[key] = (len(ex.facts), n, f, a, lo)
    ex.facts.append(f)
    ex.facts.append(Forall(lambda k: Implies(And(exists, z3.UGE(k, lo_), z3.ULT(k, end_)), z3.Select(a, k) != 0), roots_of(a)))
    ex.note_zero(st, r, addoff(end, s.start))
    return n


@model('strlen')
def m_strlen(ex, st, a, c):
    res = None
    for (g, r, o, s) in cseg(ex, a[0], 'strlen'):
        if r.kind in ('null', 'func'):
            ex.oblige_g(st, g, 'mem', 'strlen of null', False)
            continue
        n = strlen1(ex, st, r, o, s, g)
        res = n if res is None else ite(g, n, res, 64)
    if res is None:
        st.pc.append(vc.FALSE)
        return 0
    return res


def const_str(ex, st, p):
    p = int_to_ptr(p)
    if len(p.alts) == 1:
        g, r, o, s = p.alts[0]
        if r.kind == 'obj' and not isinstance(r, Elem) and r.const and isinstance(o, int) and r.segs:
            d = r.data.get(r.segs[0].start)
            if d is not None and 0 in d[o:]:
                return bytes(d[o:d.index(0, o)])
    return None


def byte_at(ex, st, p, k):
    """byte k of the string p points to, without obligations (specification-level read)"""
    res = None
    for (g, r, o, s) in int_to_ptr(p).alts:
        if r.kind in ('null', 'func'):
            continue
        s = as_seg(ex, r, o, s)
        if s is None:
            raise Inconclusive('string in object')
        if s.w is None:
            s.w = 8
        a = ex.seg_array(st, r, s)
        v = z3.Select(a, bv(addoff(suboff(o, s.start), k), 64))
        res = v if res is None else z3.If(B(g), v, res)
    return res


def lower(b):
    return z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b + 32, b)


def streq_lit(ex, st, p, lit, nocase=False, prefix=False):
    """contents of p equal to the literal (up to and including the terminator unless prefix)"""
    cs = []
    data = lit if prefix else lit + b'\0'
    for k, ch in enumerate(data):
        x = byte_at(ex, st, p, k)
        if x is None:
            return False
        if nocase:
            cs.append(lower(x) == (ch + 32 if 65 <= ch <= 90 else ch))
        else:
            cs.append(x == ch)
    return And(*cs) if cs else True


def m_cmp(nocase, bounded):
    def f(ex, st, a, c):
        n = a[2] if bounded else None
        la, lb = const_str(ex, st, a[0]), const_str(ex, st, a[1])
        if la is not None and lb is not None and (n is None or isinstance(n, int)):
            x, y = (la, lb) if n is None else (la[:n], lb[:n])
            if nocase:
                x, y = x.lower(), y.lower()
            return 0 if x == y else (1 if x > y else M(32))
        for p in a[:2]:
            if not bounded and const_str(ex, st, p) is None:
                m_strlen_only(ex, st, p)
            elif bounded and const_str(ex, st, p) is None:
                for (g, r, o, s) in cseg(ex, p, 'cmp'):
                    if r.kind in ('null', 'func'):
                        ex.oblige_g(st, g, 'mem', 'string compare with null', ex.eq(n, 0, 64))
        lit, p = (lb, a[0]) if lb is not None else (la, a[1])
        r = ex.fresh('strcmp', 32)
        if lit is not None and (n is None or isinstance(n, int)):
            if n is not None and n <= len(lit):
                e = streq_lit(ex, st, p, lit[:n], nocase, True)
            else:
                e = streq_lit(ex, st, p, lit, nocase)
            return z3.If(B(e), z3.BitVecVal(0, 32), r | 1)
        # same pointer -> equal; otherwise unconstrained sign, named so that equal arguments give equal results
        eq = ex.ptr_eq(a[0], a[1])
        k = streq_sym(ex, st, a[0], a[1], nocase, n)
        return z3.If(B(Or(eq, k)), z3.BitVecVal(0, 32), r | 1)
    f.label = 'strcmp family'
    return f


def m_strlen_only(ex, st, p):
    for (g, r, o, s) in cseg(ex, p, 'cmp'):
        if r.kind in ('null', 'func'):
            ex.oblige_g(st, g, 'mem', 'string function on null', False)
        else:
            strlen1(ex, st, r, o, s, g, 'string function')


def streq_sym(ex, st, p, q, nocase, n):
    """uninterpreted equality of two symbolic strings, keyed on their arrays and offsets"""
    def key(x):
        ks = []
        for (g, r, o, s) in int_to_ptr(x).alts:
            if r.kind in ('null', 'func'):
                ks.append(('n',))
                continue
            s = as_seg(ex, r, o, s)
            if s is None:
                ks.append((r.id, str(o)))
            else:
                ex.keep.append(ex.seg_array(st, r, s))
                ks.append((ex.keep[-1].get_id(), str(o)))
        return tuple(ks)
    k = tuple(sorted([key(p), key(q)], key=str)) + (nocase, str(n))
    b = ex.eqcache.get(k)
    if b is None:
        b = ex.eqcache[k] = ex.freshb('streq')
    return b


for nm, nc, bd in (('strcmp', 0, 0), ('strncmp', 0, 1), ('strcasecmp', 1, 0), ('strncasecmp', 1, 1)):
    MODELS[nm] = m_cmp(bool(nc), bool(bd))


@model('memcmp', 'bcmp')
def m_memcmp(ex, st, a, c):
    n = a[2]
    for p in a[:2]:
        for (g, r, o, s) in cseg(ex, p, 'memcmp'):
            if r.kind in ('null', 'func'):
                ex.oblige_g(st, g, 'mem', 'memcmp of null', ex.eq(n, 0, 64))
                continue
            s = as_seg(ex, r, o, s)
            if s is not None:
                ex.oblige_g(st, g, 'mem', f'memcmp within {r.name}', Or(ex.eq(n, 0, 64), rng(ex, o, n, s)))
    r = ex.fresh('memcmp', 32)
    if isinstance(n, int) and n <= 64:
        cs = []
        for k in range(n):
            cs.append(ex.eq(byte_any(ex, st, a[0], k), byte_any(ex, st, a[1], k), 8))
        e = And(*cs) if cs else True
        return z3.If(B(e), z3.BitVecVal(0, 32), r | 1)
    return r


def byte_any(ex, st, p, k):
    res = None
    for (g, r, o, s) in int_to_ptr(p).alts:
        if r.kind in ('null', 'func'):
            continue
        s2 = as_seg(ex, r, o, s)
        if s2 is not None:
            v = ex.seg_load(st, r, s2, suboff(addoff(o, k), s2.start), 1, 'i8')
        else:
            v = ex.cell(st, r, addoff(o, k), 1)
        res = v if res is None else ite(g, v, res, 8)
    return res


@model('strchr', 'strrchr', 'memchr', 'rawmemchr')
def m_strchr(ex, st, a, c):
    nm = c['name']
    ch = a[1]
    ch = ch & 255 if isinstance(ch, int) else z3.Extract(7, 0, ch)
    lit = const_str(ex, st, a[0])
    alts = []
    for (g, r, o, s) in cseg(ex, a[0], nm):
        if r.kind in ('null', 'func'):
            ex.oblige_g(st, g, 'mem', f'{nm} of null', False)
            continue
        if lit is not None and nm == 'strchr':
            data = lit + b'\0'
            if isinstance(ch, int):
                k = data.find(bytes([ch]))
                return Ptr(r, o + k) if k >= 0 else NULLPTR
            idx = None
            found = Or(*[ch == b for b in data])
            off = bv(0, 64)
            for k in range(len(data) - 1, -1, -1):
                off = z3.If(ch == data[k], z3.BitVecVal(o + k, 64), off)
            return Ptr([(Not(found), NULL, 0, None), (found, r, off, s)])
        sg = as_seg(ex, r, o, s)
        if nm == 'memchr':
            ex.oblige_g(st, g, 'mem', f'memchr within {r.name}', Or(ex.eq(a[2], 0, 64), rng(ex, o, a[2], sg)))
            n = bv(a[2], 64)
        else:
            n = bv(strlen1(ex, st, r, o, s, g, nm), 64)
            sg = as_seg(ex, r, o, s)
        arr = ex.seg_array(st, r, sg)
        lo = bv(suboff(o, sg.start), 64)
        f = ex.freshb(nm + '.found')
        k = ex.fresh(nm + '.pos')      # position inside the segment
        end = bv(addoff(lo, n), 64)
        lim = (lambda e: And(z3.UGE(e, lo), z3.ULE(e, end))) if nm != 'memchr' else (lambda e: And(z3.UGE(e, lo), z3.ULT(e, end)))
        c8 = bv(ch, 8)
        ex.assume(st, Implies(f, And(lim(k), z3.Select(arr, k) == c8)))
        if nm == 'strrchr':
            ex.assume(st, Forall(lambda q: Implies(And(f, z3.UGT(q, k), lim(q)), z3.Select(arr, q) != c8), roots_of(arr)))
        else:
            ex.assume(st, Forall(lambda q: Implies(And(f, z3.UGE(q, lo), z3.ULT(q, k)), z3.Select(arr, q) != c8), roots_of(arr)))
        ex.assume(st, Forall(lambda q: Implies(And(Not(f), lim(q)), z3.Select(arr, q) != c8), roots_of(arr)))
        alts.append((And(g, Not(f)), NULL, 0, None))
        alts.append((And(g, f), r, addoff(k, sg.start), s))
    return Ptr(alts)


@model('strstr', 'strpbrk', 'strcasestr')
def m_strstr(ex, st, a, c):
    lits = [(g, const_str(ex, st, Ptr([(True, r, o, s)]))) for (g, r, o, s) in int_to_ptr(a[1]).alts]
    if any(l is None for _, l in lits):
        lits = None
    alts = []
    for (g, r, o, s) in cseg(ex, a[0], 'strstr'):
        if r.kind in ('null', 'func'):
            ex.oblige_g(st, g, 'mem', 'strstr of null', False)
            continue
        n = bv(strlen1(ex, st, r, o, s, g, 'strstr'), 64)
        f = ex.freshb('strstr.found')
        k = ex.fresh('strstr.pos')     # absolute offset
        o_ = bv(o, 64)
        end = bv(addoff(o, n), 64)
        ex.assume(st, Implies(f, And(z3.UGE(k, o_), z3.ULE(k, end))))
        if lits is not None and c['name'] == 'strstr':
            sg = as_seg(ex, r, o, s)
            arr = ex.seg_array(st, r, sg)
            lo = bv(suboff(o, sg.start), 64)
            ks, es = bv(suboff(k, sg.start), 64), bv(suboff(end, sg.start), 64)
            for (lg, lit) in lits:
                ex.assume(st, Implies(And(lg, f), And(z3.ULE(bv(len(lit), 64), end - k), streq_lit(ex, st, Ptr([(True, r, k, s)]), lit, prefix=True))))

                def nomatch(q, lit=lit):
                    return Not(And(*[z3.Select(arr, q + i) == ch for i, ch in enumerate(lit)]))
                ex.assume(st, Forall(lambda q, lg=lg, nm=nomatch: Implies(And(lg, f, z3.UGE(q, lo), z3.ULT(q, ks)), nm(q)), roots_of(arr)))
                ex.assume(st, Forall(lambda q, lg=lg, nm=nomatch: Implies(And(lg, Not(f), z3.UGE(q, lo), z3.ULE(q, es)), nm(q)), roots_of(arr)))
        elif lits is not None:
            ex.assume(st, Implies(f, z3.ULT(k, end)))
        else:
            m_strlen_only(ex, st, a[1])
        alts.append((And(g, Not(f)), NULL, 0, None))
        alts.append((And(g, f), r, k, s))
    return Ptr(alts)


def havoc_str(ex, st, dst, size, name, maxlen=None):
    """buffer receives an unknown NUL-terminated string of at most size-1 characters"""
    n = ex.fresh(name + '.n')
    for (g, r, o, s) in one(ex, dst, name):
        if r.kind in ('null', 'func'):
            ex.oblige_g(st, g, 'mem', f'{name} to null', ex.eq(size, 0, 64))
            continue
        sg = as_seg(ex, r, o, s)
        if sg is None:
            if not isinstance(r, Elem) and r.fresh and not r.segs:
                r.segs = [Seg(0, r.size, 8)]
                sg = r.segs[0]
            else:
                raise Inconclusive(f'{name} into object {r.name}')
        if sg.w is None:
            sg.w = 8
        ex.oblige_g(st, g, 'mem', f'{name} within {r.name}', Or(ex.eq(size, 0, 64), rng(ex, o, size, sg)))
        a = ex.seg_array(st, r, sg)
        na = ex.fresh_array(name)
        lo = bv(suboff(o, sg.start), 64)
        sz = bv(size, 64)
        hi, ne = bv(addoff(lo, sz), 64), bv(addoff(lo, n), 64)
        ex.assume(st, Implies(sz != 0, And(z3.ULT(n, sz), z3.ULE(lo, ne), z3.ULT(ne, hi), z3.Select(na, ne) == 0)))
        ex.assume(st, Forall(lambda k: Implies(Or(Not(g), z3.ULT(k, lo), z3.UGE(k, hi)), z3.Select(na, k) == z3.Select(a, k)), roots_of(na) | roots_of(a)))
        ex.assume(st, Forall(lambda k: Implies(And(g, sz != 0, z3.UGE(k, lo), z3.ULT(k, ne)), z3.Select(na, k) != 0), roots_of(na)))
        ex.set_seg(st, r, sg, na)
        ex.note_zero(st, r, fold(z3.simplify(bv(o, 64) + n)))
    return n


def fmt_args(ex, st, a, c):
    return const_str(ex, st, a)


@model('snprintf', 'vsnprintf')
def m_snprintf(ex, st, a, c):
    n = havoc_str(ex, st, a[0], a[1], 'snprintf')
    ex.assumptions.add('printf-family formatting: output text unspecified, bounded by the size argument and NUL-terminated')
    h = getattr(ex, 'on_printf', None)
    r = ex.fresh('snprintf', 32)
    n32 = z3.Extract(31, 0, n)
    sz = bv(a[1], 64)
    # returned length: equals the written length unless truncated
    ex.assume(st, And(r >= 0, z3.ULT(n, 1 << 31), z3.If(z3.ULT(z3.ZeroExt(32, r), sz), z3.ZeroExt(32, r) == n, Implies(sz != 0, n == sz - 1))))
    return r


@model('sprintf')
def m_sprintf(ex, st, a, c):
    raise Inconclusive('sprintf')


@model('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fflush', 'perror', 'vfprintf', 'fputc')
def m_out(ex, st, a, c):
    return ex.fresh('io', 32)


@model('strncpy')
def m_strncpy(ex, st, a, c):
    n = a[2]
    for (g, r, o, s) in one(ex, a[0], 'strncpy'):
        if r.kind in ('null', 'func'):
            ex.oblige_g(st, g, 'mem', 'strncpy to null', ex.eq(n, 0, 64))
            continue
        for (g2, r2, o2, s2) in one(ex, a[1], 'strncpy'):
            if r2.kind in ('null', 'func'):
                ex.oblige_g(st, And(g, g2), 'mem', 'strncpy from null', ex.eq(n, 0, 64))
                continue
            gg = And(g, g2)
            sg = as_seg(ex, r, o, s)
            if sg is None and not isinstance(r, Elem) and r.fresh and not r.segs:
                r.segs = [Seg(0, r.size, 8)]
                sg = r.segs[0]
            sg2 = as_seg(ex, r2, o2, s2)
            if sg is None or sg2 is None:
                raise Inconclusive('strncpy on object')
            for q in (sg, sg2):
                if q.w is None:
                    q.w = 8
            ex.oblige_g(st, gg, 'mem', f'strncpy: write within {r.name}', Or(ex.eq(n, 0, 64), rng(ex, o, n, sg)))
            # the source may be unterminated as long as n bytes are readable
            ar, b = ex.seg_array(st, r, sg), ex.seg_array(st, r2, sg2)
            lo, so = bv(suboff(o, sg.start), 64), bv(suboff(o2, sg2.start), 64)
            N = bv(n, 64)
            zs = [bv(suboff(z, sg2.start), 64) for z in st.zeros.get(r2.id, ())]
            lit = const_str(ex, st, a[1])
            term = Or(*[And(z3.UGE(z, so), z3.ULT(z, bv(sg2.size, 64)), z3.Select(b, z) == 0) for z in zs]) if zs else (lit is not None)
            ex.oblige_g(st, gg, 'mem', f'strncpy: read within {r2.name}', Or(term, ex.eq(n, 0, 64), rng(ex, o2, n, sg2)))
            se = ex.fresh('strncpy.end')   # end of the copied text in the source: min(strlen, n) characters
            m = suboff(se, so)
            sN = bv(addoff(so, N), 64)
            ex.assume(st, And(z3.ULE(so, se), z3.ULE(m, N), Implies(se != sN, z3.Select(b, se) == 0)))
            ex.assume(st, Forall(lambda k: Implies(And(z3.UGE(k, so), z3.ULT(k, se)), z3.Select(b, k) != 0), roots_of(b)))
            for z in zs:
                ex.assume(st, Implies(And(z3.UGE(z, so), z3.Select(b, z) == 0), z3.ULE(se, z)))
            if lit is not None and isinstance(o2, int):
                ex.assume(st, m == z3.If(z3.ULT(N, len(lit)), N, z3.BitVecVal(len(lit), 64)))
            na = ex.fresh_array('strncpy')
            ex.assume(st, Forall(lambda k: z3.Select(na, k) == z3.If(B(And(gg, z3.ULT(k - lo, m))), z3.Select(b, k - lo + so),
                                 z3.If(B(And(gg, z3.ULT(k - lo, N))), z3.BitVecVal(0, 8), z3.Select(ar, k))), roots_of(na) | roots_of(ar)))
            ex.assume(st, Forall(lambda k: Implies(And(gg, z3.ULT(k - so, m)), z3.Select(na, k - so + lo) == z3.Select(b, k)), roots_of(b)))
            ex.set_seg(st, r, sg, na)
            ex.note_zero(st, r, fold(z3.simplify(bv(o, 64) + m)))
            if len(ex.copylen) < 1000:
                ex.copylen[na.get_id()] = (na, m)
    return a[0]


@model('strcpy', 'stpcpy', 'strcat')
def m_strcpy(ex, st, a, c):
    if c['name'] != 'strcpy':
        raise Inconclusive(c['name'])
    lit = const_str(ex, st, a[1])
    n = len(lit) if lit is not None else m_strlen(ex, st, [a[1]], c)
    memcpy(ex, st, a[0], a[1], addoff(n, 1))
    for (g, r, o, s) in one(ex, a[0], 'strcpy'):
        if r.kind not in ('null', 'func'):
            ex.note_zero(st, r, addoff(o, n))
    return a[0]


@model('strdup')
def m_strdup(ex, st, a, c):
    n = m_strlen(ex, st, [a[0]], c)
    p = alloc(ex, st, addoff(n, 1), f'strdup@{ex.loc()}', untyped=False)
    p.alts[0][1].segs[0].w = 8
    memcpy(ex, st, p, a[0], addoff(n, 1))
    ex.note_zero(st, p.alts[0][1], n)
    return p


def num_model(w):
    def f(ex, st, a, c):
        for (g, r, o, s) in cseg(ex, a[0], 'strtol'):
            if r.kind in ('null', 'func'):
                ex.oblige_g(st, g, 'mem', 'number parse of null', False)
            elif as_seg(ex, r, o, s) is not None:
                n = strlen1(ex, st, r, o, s, g, 'number parse')
        if len(a) > 1 and isinstance(a[1], Ptr) and not all(x[1].kind == 'null' for x in a[1].alts):
            k = ex.fresh('strtol.end')
            alts = []
            for (g, r, o, s) in cseg(ex, a[0], 'strtol'):
                if r.kind in ('null', 'func'):
                    continue
                n = strlen1(ex, st, r, o, s, g, None)
                ex.assume(st, Implies(g, z3.ULE(k, bv(n, 64))))
                alts.append((g, r, addoff(o, k), s))
            ex.store(st, a[1], Ptr(alts), 'ptr', 8)
        key = ('num', c['dem'], ptrkey(ex, st, a[0]))
        v = ex.eqcache.get(key)
        if v is None:
            v = ex.eqcache[key] = ex.fresh('num', w)
        return v
    f.label = 'strtol/atoi (value unspecified function of the text)'
    return f


def ptrkey(ex, st, p):
    ks = []
    for (g, r, o, s) in int_to_ptr(p).alts:
        if r.kind in ('null', 'func') or isinstance(r, Elem):
            ks.append((r.id,))
            continue
        s = as_seg(ex, r, o, s)
        ks.append((ex.seg_array(st, r, s).get_id() if s is not None else r.id, str(o)))
    return tuple(ks)


for nm, w in (('atoi', 32), ('atol', 64), ('atoll', 64), ('strtol', 64), ('strtoul', 64), ('strtoll', 64), ('strtoull', 64), ('__isoc23_strtol', 64), ('__isoc23_strtoul', 64), ('__isoc23_strtoll', 64)):
    MODELS[nm] = num_model(w)


@model('atof', 'strtod')
def m_atof(ex, st, a, c):
    return z3.FP(f'atof!{uid()}', z3.Float64())


def ctype(pred):
    def f(ex, st, a, c):
        x = a[0]
        if isinstance(x, int):
            return 1 if pred(x & M(32), True) else 0
        ex.oblige(st, 'ctype', 'ctype argument representable as unsigned char or EOF', z3.Or(z3.ULE(x, 255), x == z3.BitVecVal(-1, 32)))
        return z3.If(B(pred(x, False)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    f.label = 'ctype ("C" locale)'
    return f


def _in(x, lo, hi):
    return (lo <= x <= hi) if isinstance(x, int) else z3.And(z3.UGE(x, lo), z3.ULE(x, hi))


def _or(c, *xs):
    return any(xs) if c else z3.Or(*[B(x) for x in xs])


MODELS['isdigit'] = ctype(lambda x, c: _in(x, 48, 57))
MODELS['isupper'] = ctype(lambda x, c: _in(x, 65, 90))
MODELS['islower'] = ctype(lambda x, c: _in(x, 97, 122))
MODELS['isalpha'] = ctype(lambda x, c: _or(c, _in(x, 65, 90), _in(x, 97, 122)))
MODELS['isalnum'] = ctype(lambda x, c: _or(c, _in(x, 65, 90), _in(x, 97, 122), _in(x, 48, 57)))
MODELS['isspace'] = ctype(lambda x, c: _or(c, _in(x, 9, 13), (x == 32)))
MODELS['isxdigit'] = ctype(lambda x, c: _or(c, _in(x, 65, 70), _in(x, 97, 102), _in(x, 48, 57)))
MODELS['ispunct'] = ctype(lambda x, c: _or(c, _in(x, 33, 47), _in(x, 58, 64), _in(x, 91, 96), _in(x, 123, 126)))


@model('tolower', 'toupper')
def m_tolower(ex, st, a, c):
    x = a[0]
    up = c['name'] == 'toupper'
    lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
    if isinstance(x, int):
        return (x + d) & M(32) if lo <= x <= hi else x
    return z3.If(_in(x, lo, hi), x + z3.BitVecVal(d, 32), x)


@model('time', 'Util::CurrentTime')
def m_time(ex, st, a, c):
    t = ex.fresh('time')
    ex.assume(st, And(t >= 0, t < (1 << 40)))
    if a and isinstance(a[0], Ptr):
        for (g, r, o, s) in a[0].alts:
            if r.kind not in ('null', 'func'):
                ex.store(st, Ptr([(g, r, o, s)]), t, 'i64', 8)
    if not isinstance(ex.last_time, list):
        ex.last_time = []
    ex.last_time.append(t)
    return t


@model('rand', 'random', 'getpid', 'gettid')
def m_rand(ex, st, a, c):
    r = ex.fresh('rand', 32)
    ex.assume(st, r >= 0)
    return r


@model('__errno_location')
def m_errno(ex, st, a, c):
    r = getattr(ex, 'errno_region', None)
    if r is None:
        r = ex.errno_region = ex.new_region('errno', 4)
    return Ptr(r, 0)


# ---------------------------------------------------------------- locks and logging: no effect on the verified state
NOOP = ['debug', 'info', 'warn', 'error', 'detail', 'Mutex::Lock', 'Mutex::Unlock', 'Mutex::~Mutex', 'Mutex::Mutex', 'usleep', 'Util::Sleep',
        'pthread_mutex_lock', 'pthread_mutex_unlock', 'NzbInfo::PrintMessage', 'NzbInfo::AddMessage', 'Thread::Start', 'sleep', 'pthread_self',
        'Guard::~Guard', 'NzbInfo::UpdateMinMaxTime_none', 'ConditionVar::NotifyAll', 'ConditionVar::NotifyOne', 'ScriptController::PrintMessage',
        'std::mutex::lock', 'std::mutex::unlock', 'std::unique_lock<std::mutex>::unlock', 'std::condition_variable::notify_all', 'std::condition_variable::notify_one']


def noop(ex, st, a, c):
    w = c['ty']
    if w == 'void':
        return None
    if w == 'ptr':
        return a[0] if a else NULLPTR
    return ex.fresh('noop', int(w[1:])) if isinstance(w, str) and w.startswith('i') and w != 'i1' else (ex.freshb('noop') if w == 'i1' else Undef(w))


noop.label = 'logging/locking (no effect on the specified state)'
for n in NOOP:
    MODELS[n] = noop
