"""CRC32: the table-driven implementation computes the reflected CRC with polynomial 0xEDB88320 of every byte sequence;
Combine yields the checksum of the concatenation for every length."""
from prop import *

P = Property('P02', ['lib/yencode/SliceCrc.cpp', 'daemon/util/Util.cpp'])
POLY = 0xEDB88320


def cstep(crc, byte=None):
    """one byte of the CRC definition, bit by bit"""
    x = crc if byte is None else crc ^ z3.ZeroExt(24, byte)
    for _ in range(8):
        x = z3.LShR(x, 1) ^ (z3.SignExt(31, z3.Extract(0, 0, x)) & POLY)
    return x


def istep(x, n=8):
    for _ in range(n):
        x = (x >> 1) ^ (POLY if x & 1 else 0)
    return x


def tables(c, ex):
    """the tables of the current source, checked entry by entry against the definition; in the body of the code they
    are represented by their (checked) linear form"""
    names = [g for g in c.prog.globals if 'crc32_tab' in c.prog.globals[g].get('dem', g)]
    reg = None
    return names


@P.unit('slice', fn='YEncode::crc_slice', timeout=60000)
def slice_(c):
    ex = c.ex
    n = c.var('len')
    c.assume(n >= 0, n < (1 << 40))
    src = c.buffer('src', n)
    crc = c.buffer('state', 64, 32)
    a = c.arr(src)
    F = z3.Array('crc_after', z3.BitVecSort(64), z3.BitVecSort(32))
    first = z3.Select(c.arr(crc), z3.BitVecVal(0, 64))
    c.assume(z3.Select(F, z3.BitVecVal(0, 64)) == bv(first, 32))
    c.assume(Forall(lambda k: z3.Select(F, k + 1) == cstep(z3.Select(F, k), z3.Select(a, k)), roots_of(a)))

    def inv(v):
        r = []
        for p, _, _ in v.ptrs(src):
            for i, _, _ in v.ints(32):
                r.append((('crc of the prefix', p.key, i.key), lambda w, p=p, i=i: bv(w.cur(i), 32) == z3.Select(F, bv(int_to_ptr(w.cur(p)).alts[0][2], 64))))
            for i, _, _ in v.ints(64):
                r.append((('rest', p.key, i.key), lambda w, p=p, i=i: bv(int_to_ptr(w.cur(p)).alts[0][2], 64) + bv(w.cur(i), 64) == n))
        return r
    ex.loop_inv.append(inv)
    st, _ = c.run('YEncode::crc_slice', [Ptr(crc, 0), Ptr(src, 0), n])
    c.ensure(st, 'state is the CRC of all bytes', z3.Select(c.arr(crc, st), z3.BitVecVal(0, 64)) == z3.Select(F, n))
    c.cover(st, 'returns')


def mat_times(mat, vec):
    r, i = 0, 0
    while vec:
        if vec & 1:
            r ^= mat[i]
        vec >>= 1
        i += 1
    return r


def zero_operators(n):
    """matrix of appending 2^k zero bytes, k < n, from the bit-by-bit definition"""
    m = [istep(1 << i) for i in range(32)]
    out = []
    for k in range(n):
        out.append(tuple(m))
        m = [mat_times(m, m[i]) for i in range(32)]
    return out


@P.unit('gf2-times', fn='gf2_matrix_times', timeout=60000)
def gf2_times(c):
    mat = c.buffer('mat', 128, 32)
    vec = c.var('vec', 32)
    a = c.arr(mat)
    S = z3.Array('partial_sum', z3.BitVecSort(64), z3.BitVecSort(32))
    k64 = lambda i: z3.BitVecVal(i, 64)
    nxt = lambda k: z3.Select(S, k + 1) == z3.Select(S, k) ^ z3.If(z3.Extract(0, 0, z3.LShR(vec, z3.Extract(31, 0, k))) == 1, z3.Select(a, k), 0)
    c.assume(z3.Select(S, k64(0)) == 0)
    for i in range(32):
        c.assume(nxt(k64(i)))

    def inv(v):
        r = []
        idx = lambda w, p: z3.LShR(bv(int_to_ptr(w.cur(p)).alts[0][2], 64), 2)
        for p, _, _ in v.ptrs(mat):
            r.append((('rows', p.key), lambda w, p=p: And(z3.ULE(idx(w, p), 32), z3.Extract(1, 0, bv(int_to_ptr(w.cur(p)).alts[0][2], 64)) == 0)))
            for i, _, _ in v.ints(32):
                r.append((('bits left', p.key, i.key), lambda w, p=p, i=i: bv(w.cur(i), 32) == z3.LShR(vec, z3.Extract(31, 0, idx(w, p)))))
                r.append((('partial sum', p.key, i.key), lambda w, p=p, i=i: Or([And(idx(w, p) == k, bv(w.cur(i), 32) == z3.Select(S, k64(k))) for k in range(33)])))
        return r
    c.ex.loop_inv.append(inv)
    st, r = c.run('gf2_matrix_times', [Ptr(mat, 0), vec])
    spec = z3.Select(S, k64(32))
    c.ensure(st, 'product over GF(2)', bv(r, 32) == spec)
    c.cover(st, 'returns')


@P.unit('combine', fn='Crc32::Combine')
def combine(c):
    ops = zero_operators(32)
    T = [z3.Function(f'zeros_2^{k}', z3.BitVecSort(32), z3.BitVecSort(32)) for k in range(32)]

    def times(ex, st, a, info):
        p = int_to_ptr(a[0])
        reg, off = p.alts[0][1], p.alts[0][2]
        arr = ex.seg_array(st, reg, reg.seg_at(off) or reg.segs[0])
        m = []
        for i in range(32):
            v = z3.simplify(z3.Select(arr, z3.BitVecVal(i, 64)))
            if not z3.is_bv_value(v):
                raise Inconclusive('matrix is not constant')
            m.append(v.as_long())
        vec = fold(z3.simplify(bv(a[1], 32)))
        if isinstance(vec, int):
            return mat_times(m, vec)
        if tuple(m) in ops:
            return T[ops.index(tuple(m))](vec)
        return z3.Function('matrix_%x' % (hash(tuple(m)) & 0xffffffff), z3.BitVecSort(32), z3.BitVecSort(32))(vec)
    c.contract('gf2_matrix_times', times)
    c.ex.unroll_fns['Crc32::Combine'] = 33
    c1, c2, n = c.var('crc1', 32), c.var('crc2', 32), c.var('len2', 32)
    st, r = c.run('Crc32::Combine', [c1, c2, n])
    x = c1
    for k in range(32):
        x = z3.If(z3.Extract(k, k, n) == 1, T[k](x), x)
    c.ensure(st, 'CRC of the concatenation', z3.If(n == 0, bv(r, 32) == c1, bv(r, 32) == x ^ c2))
    c.cover(st, 'returns')
    a, b, p, q = c.var('a', 32), c.var('b', 32), c.var('p', 8), c.var('q', 8)
    c.lemma('one CRC step is linear', cstep(a ^ b, p ^ q) == cstep(a, p) ^ cstep(b, q))
    for v in (0, 1, 0x80000000, 0xffffffff):
        c.lemma('first operator appends one zero byte', z3.BitVecVal(mat_times(ops[0], v), 32) == z3.simplify(cstep(z3.BitVecVal(v, 32))))
    c.ex.assumptions.add('meta-argument (not machine-checked): crc(A+B) = Z_|B|(crc(A)) xor crc(B) follows from linearity of one step by induction over B')

P.native('crc.cpp', ['daemon/util/Util.cpp', 'daemon/util/NString.cpp'] + ['lib/yencode/%s.cpp' % x for x in ('SliceCrc', 'PclmulCrc', 'SimdInit')], always=True, seconds=5,
         label='table and carry-less-multiplication implementations, Crc32 class and Combine against the bitwise definition (the carry-less-multiplication code is outside the verifier: bounded only)',
         bound='up to 20000 bytes, random pieces and alignments')
