"""Article decoding: exactly the encoded bytes, whatever the network chunks."""
from prop import *
import vc

P = Property('P01', ['daemon/nntp/Decoder.cpp', 'lib/yencode/ScalarDecoder.cpp', 'daemon/util/Util.cpp', 'daemon/util/NString.cpp'])
P.limit = 650
CRLF, EQ, CR, NONE, CRLFDT, CRLFDTCR, CRLFEQ, ENDY, ENDDOT = range(9)      # YencDecoderState; the last two: end found
b8, b64 = lambda x: bv(x, 8), lambda x: bv(x, 64)


def delta(s, ch):
    """the yEnc stream automaton: (next state, byte emitted?, value)"""
    c = lambda x: ch == ord(x)
    fresh = z3.If(c('\r'), b8(CR), z3.If(c('='), b8(EQ), b8(NONE)))
    esc = z3.If(c('\r'), b8(CR), b8(NONE))
    n = z3.If(s == EQ, esc,
        z3.If(s == CRLFEQ, z3.If(c('y'), b8(ENDY), esc),
        z3.If(And(s == CR, c('\n')), b8(CRLF),
        z3.If(And(s == CRLF, c('.')), b8(CRLFDT),
        z3.If(And(Or(s == CRLF, s == CRLFDT), c('=')), b8(CRLFEQ),
        z3.If(And(s == CRLFDT, c('\r')), b8(CRLFDTCR),
        z3.If(And(s == CRLFDTCR, c('\n')), b8(ENDDOT), fresh)))))))
    escaped = Or(s == EQ, And(s == CRLFEQ, Not(c('y'))))
    emit = Or(escaped, And(Not(Or(s == EQ, s == CRLFEQ)), Not(Or(c('\r'), c('\n'), c('='))), Not(And(s == CRLF, c('.')))))
    return n, emit, z3.If(escaped, ch - 106, ch - 42)


def scalar(name, inplace):
    @P.unit(name, fn='YEncode::decode_scalar', timeout=60000, merge='loops', prove_timeout=30000)
    def body(c, inplace=inplace):
        ex = c.ex
        n = c.var('len')
        c.assume(z3.UGT(n, 0), z3.ULT(n, 1 << 40))
        src = c.buffer('src', n)
        dst = src if inplace else c.buffer('dst', n)
        A = c.arr(src)                      # the received bytes
        state = c.buffer('state', 1)
        ps, pd = c.ptrbox('psrc', Ptr(src, 0)), c.ptrbox('pdst', Ptr(dst, 0))
        s0 = z3.Select(c.arr(state), b64(0))
        c.assume(z3.ULE(s0, CRLFEQ))
        # ghost: state and number of decoded bytes after each received byte, the decoded bytes
        S, O, X = z3.Array('S', z3.BitVecSort(64), z3.BitVecSort(8)), z3.Array('O', z3.BitVecSort(64), z3.BitVecSort(64)), z3.Array('X', z3.BitVecSort(64), z3.BitVecSort(8))
        sel = z3.Select
        c.assume(sel(S, b64(0)) == s0, sel(O, b64(0)) == 0)

        def step(k):
            nx, em, val = delta(sel(S, k), sel(A, k))
            ended = z3.UGE(sel(S, k), ENDY)
            return z3.If(ended, And(sel(S, k + 1) == sel(S, k), sel(O, k + 1) == sel(O, k)),
                         And(sel(S, k + 1) == nx, sel(O, k + 1) == sel(O, k) + z3.If(B(em), b64(1), b64(0)), Implies(em, sel(X, sel(O, k)) == val)))

        def behind(k):                      # the output never overtakes the input
            esc = Or(sel(S, k) == EQ, sel(S, k) == CRLFEQ)
            return And(z3.ULE(sel(O, k), k), Implies(And(k != 0, esc), z3.ULT(sel(O, k), k)), z3.ULE(sel(S, k), ENDDOT))
        # by induction over k
        c.lemma('output behind input: start', behind(b64(0)), [sel(S, b64(0)) == s0, sel(O, b64(0)) == 0, z3.ULE(s0, CRLFEQ)])
        k0 = c.var('k_lemma')
        c.lemma('output behind input: step', behind(k0 + 1), [z3.ULT(k0, n), z3.ULT(n, 1 << 40), behind(k0), step(k0)])
        c.assume(Forall(lambda k: And(Implies(z3.ULT(k, n), step(k)), Implies(z3.ULE(k, n), behind(k))), roots_of(A) | roots_of(S)))

        def inv(v):
            r = []
            for p, _, _ in v.ptrs(dst):
                off = lambda w, p=p: b64(int_to_ptr(w.cur(p)).alts[0][2])
                for i, _, _ in v.ints(64):
                    pos = lambda w, i=i: n + b64(w.cur(i))

                    def rel(w, off=off, pos=pos):
                        k, o = pos(w), off(w)
                        s, ch, nc = sel(S, k), sel(A, k), sel(A, k + 1)
                        same = o == sel(O, k)
                        return Or(And(k == n, s == NONE, same), And(z3.ULT(k, n), Or(And(s == NONE, same),
                            And(Or(s == EQ, s == CRLFEQ), ch == 13, k != 0, o == sel(O, k) + 1, sel(X, sel(O, k)) == b8(13 - 106)),
                            And(s == CR, same, Or(ch != 10, And(z3.ULT(k + 1, n), nc != 46, nc != 61))),
                            And(s == CRLF, same, ch != 46, ch != 61), And(s == CRLFDT, same, ch != 13, ch != 61), And(s == CRLFDTCR, same, ch != 10))))
                    r.append((('automaton', p.key, i.key), rel))
                    # inside the part of the code entered by the state carried over: exactly in that state
                    for t in range(CRLFEQ + 1):
                        r.append((('at', t, p.key, i.key), lambda w, off=off, pos=pos, t=t: And(z3.ULT(pos(w), n), sel(S, pos(w)) == t, off(w) == sel(O, pos(w)))))
                    r.append((('at escape', p.key, i.key), lambda w, off=off, pos=pos: And(z3.ULT(pos(w), n), Or(sel(S, pos(w)) == EQ, And(sel(S, pos(w)) == CRLFEQ, sel(A, pos(w)) != ord('y'))), off(w) == sel(O, pos(w)))))
                    r.append((('position', p.key, i.key), lambda w, off=off, pos=pos: And(z3.ULE(off(w), pos(w)), z3.ULE(pos(w), n))))
                    if inplace:
                        r.append((('rest', p.key, i.key), lambda w, pos=pos: Forall(lambda k: Implies(And(z3.ULE(pos(w), k), z3.ULT(k, n)), sel(c.arr(src, w.st), k) == sel(A, k)), roots_of(c.arr(src, w.st)))))
                r.append((('output', p.key), lambda w, off=off: Forall(lambda k: Implies(z3.ULT(k, off(w)), sel(c.arr(dst, w.st), k) == sel(X, k)), roots_of(c.arr(dst, w.st)))))
            return r
        ex.loop_inv.append(inv)
        seen = []
        for j, (st, r) in enumerate(c.run('YEncode::decode_scalar', [Ptr(ps, 0), Ptr(pd, 0), n, Ptr(state, 0)], paths=True)):
            r = bv(r, 32)
            so, do = c.unbox(ps, st), c.unbox(pd, st)
            k, o, s = b64(one_off(so, src)), b64(one_off(do, dst)), bv(sel(c.arr(state, st), b64(0)), 8)
            c.ensure(st, 'nothing is read or reported beyond the received bytes', z3.ULE(k, n))
            c.ensure(st, 'end keyword found exactly where it is', (r == 1) == And(sel(S, k) == ENDY, sel(S, k - 1) < ENDY))
            c.ensure(st, 'end of article found exactly where it is', (r == 2) == And(sel(S, k) == ENDDOT, sel(S, k - 1) < ENDY))
            c.ensure(st, 'otherwise everything is consumed', Or(r == 1, r == 2, And(r == 0, k == n)))
            c.ensure(st, 'state carried to the next piece', Implies(r == 0, s == sel(S, n)))
            c.ensure(st, 'state after the end keyword', Implies(r == 1, s == NONE))
            c.ensure(st, 'state after the end of article', Implies(r == 2, s == CRLF))
            c.ensure(st, 'number of decoded bytes', o == sel(O, k))
            c.ensure(st, 'the decoded bytes', Forall(lambda j, o=o, st=st: Implies(z3.ULT(j, o), sel(c.arr(dst, st), j) == sel(X, j)), roots_of(c.arr(dst, st))))
            seen.append(st.pcf())
        c.cover(vc.State(), 'some path', Or(seen))
    return body


def one_off(p, reg):
    if len(p.alts) == 1 and p.alts[0][1] is reg:
        return p.alts[0][2]
    out = None
    for (g, r, off, _) in p.alts:
        if r is not reg:
            raise Inconclusive('cursor points elsewhere')
        out = b64(off) if out is None else z3.If(B(g), b64(off), out)
    return out


scalar('scalar-decoder', False)

D = 'Decoder'


def noops(c, *names):
    for n in names:
        c.contract(n, lambda ex, st, a, i: None)


@P.unit('raw-mode-end', fn='Decoder::ProcessRaw')
def raw_mode(c):
    """the terminator is found exactly where it is in the whole stream, in whatever pieces it arrives"""
    d = c.obj(D, 'decoder')
    n = c.var('len', 32)
    N = z3.SignExt(32, n)
    c.assume(n >= 0)
    buf = c.buffer('piece', N)
    A = c.arr(buf)
    pre = z3.Array('received_before', z3.BitVecSort(64), z3.BitVecSort(8))
    MARK = b'\r\n.\r\n'

    def byte(k):                    # byte k of the stream; k < 0: received in earlier pieces
        return z3.If(k >= 0, z3.Select(A, k), z3.Select(pre, 0 - k))

    def ends(k, j):                 # the stream up to k ends with the first j bytes of the marker
        return And([byte(k - j + t) == MARK[t] for t in range(j)])

    def state(k):                   # longest one
        r = b8(0)
        for j in (1, 2, 3, 4):
            r = z3.If(ends(k, j), b8(j), r)
        return r
    zero = b64(0)
    c.assume(Not(c.truth(c.get(d, 'm_eof'))), bv(c.get(d, 'm_state'), 8) == state(zero))

    def inv(v):
        r = []
        for p, _, _ in v.ptrs(buf):
            off = lambda w, p=p: b64(int_to_ptr(w.cur(p)).alts[0][2])
            r.append((('raw', p.key), lambda w, off=off: And(z3.ULE(off(w), N), Implies(Not(c.truth(c.get(d, 'm_eof', w.st))), bv(c.get(d, 'm_state', w.st), 8) == state(off(w))), c.truth(c.get(d, 'm_eof', w.st)) == And(off(w) != 0, ends(off(w), 5)))))
            r.append((('none before', p.key), lambda w, off=off: Forall(lambda k: Implies(And(z3.ULT(k, off(w)), k != 0), Not(ends(k, 5))), roots_of(A))))
        return r
    c.ex.loop_inv.append(inv)
    st, r = c.run('Decoder::ProcessRaw', [Ptr(d, 0), Ptr(buf, 0), n])
    eof = c.truth(c.get(d, 'm_eof', st))
    c.ensure(st, 'a terminator within the received bytes is never overlooked', Forall(lambda k: Implies(And(Not(eof), k != 0, z3.ULE(k, N)), Not(ends(k, 5))), roots_of(A)))
    c.ensure(st, 'state for the next piece', Implies(Not(eof), bv(c.get(d, 'm_state', st), 8) == state(N)))
    c.cover(st, 'terminator found', eof)
    c.cover(st, 'none', Not(eof))


@P.unit('decode-yenc', fn='Decoder::DecodeYenc')
def decode_yenc(c):
    """accounting around the block decoder, whose contract (proved in scalar-decoder) is assumed here"""
    d = c.obj(D, 'decoder')
    n = c.var('len', 32)
    c.assume(n > 0)
    buf = c.buffer('received', z3.SignExt(32, n))
    used, outn, end = c.var('consumed', 64), c.var('decoded', 64), c.var('end', 32)
    c.assume(z3.ULE(used, z3.SignExt(32, n)), z3.ULE(outn, used), z3.ULE(end, 2))
    crcs, log = [], []

    def decode(ex, st, a, i):
        ex.store(st, int_to_ptr(a[0]), Ptr(buf, used), 'ptr', 8)
        ex.store(st, int_to_ptr(a[1]), Ptr(buf, outn), 'ptr', 8)
        c.asked = (a[2], a[3])
        return end
    c.contract('block_decoder', decode, 'YEncode::decode (contract proved in unit scalar-decoder)')
    c.ex.global_region('_ZN7YEncode6decodeE').ptr_init[0] = Ptr(vc.Region('block_decoder', 0, kind='func'), 0)
    noops(c, 'StringBuilder::SetLength')

    def append(ex, st, a, i):
        log.append((st.pcf(), a))
    c.contract('StringBuilder::Append', append)

    def crcapp(ex, st, a, i):
        crcs.append((st.pcf(), a))
    c.contract('Crc32::Append', crcapp)
    st, r = c.run('Decoder::DecodeYenc', [Ptr(d, 0), Ptr(buf, 0), Ptr(buf, 0), n])
    o32 = z3.Extract(31, 0, outn)
    c.ensure(st, 'number of decoded bytes returned', bv(r, 32) == o32)
    c.ensure(st, 'number of decoded bytes added to the total', bv(c.get(d, 'm_outSize', st), 64) == bv(c.get(d, 'm_outSize'), 64) + z3.SignExt(32, o32))
    body0, body1 = c.truth(c.get(d, 'm_body')), c.truth(c.get(d, 'm_body', st))
    c.ensure(st, 'back to line mode exactly at an end', body1 == And(body0, end == 0))
    chk = c.truth(c.get(d, 'm_crcCheck'))
    c.ensure(st, 'checksum calculated exactly when verification is on', Or([g for g, a in crcs]) == chk if crcs else Not(chk))
    for k, (g, a) in enumerate(crcs):
        p = int_to_ptr(a[1])
        c.lemma(f'checksum covers exactly the decoded bytes {k}', And(one_off(p, buf) == 0, bv(a[2], 32) == o32), [g])
    rest = [(g, a) for g, a in log if len(a) > 2 and any(x[1] is buf for x in int_to_ptr(a[1]).alts)]
    if not rest:
        raise Inconclusive('the remaining bytes are not kept by an append')
    for k, (g, a) in enumerate(rest):
        c.lemma(f'the bytes after the end go back to line mode {k}', And(b64(one_off(int_to_ptr(a[1]), buf)) == used, bv(a[2], 32) == n - z3.Extract(31, 0, used)), [g])
    c.lemma('whenever there are any', Or([g for g, a in rest]), [st.pcf(), end != 0, z3.ULT(used, z3.SignExt(32, n))])


@P.unit('uu-line', fn='Decoder::DecodeUx')
def uu_line(c):
    """one uuencoded line of any length: stays within the line, never more output than input"""
    d = c.obj(D, 'decoder')
    line = c.cstr('line', 1 << 30)
    n = c.var('len', 32)
    c.assume(n > 0, z3.SignExt(32, n) <= line.len, z3.Select(c.arr(line), z3.SignExt(32, n) - 1) == 10)      # called with complete lines
    for nm in ('WebUtil::Latin1ToUtf8', 'CString::operator=', 'CString::CString', 'CString::~CString'):
        c.contract(nm, lambda ex, st, a, i: a[0] if a else None)

    def inv(v):
        eff0 = (z3.ZeroExt(24, z3.Select(c.arr(line), b64(0))) - 32) & 63
        r = []
        for e, _, _ in v.ints(32):
            for p, _, _ in v.ptrs(line):
                o = lambda w, p=p: b64(int_to_ptr(w.cur(p)).alts[0][2])
                ef = lambda w, e=e: bv(w.cur(e), 32)
                r.append((('uu', e.key, p.key), lambda w, o=o, ef=ef: And(ef(w) >= -2, ef(w) <= 63, 3 * (o(w) - 1) == 4 * z3.SignExt(32, eff0 - ef(w)), o(w) >= 1, o(w) <= 90)))
                r.append((('out', e.key, p.key), lambda w, o=o, ef=ef: o(w) == z3.SignExt(32, z3.If(ef(w) >= 0, eff0 - ef(w), eff0))))
        for p, _, _ in v.ptrs(line):
            r.append((('in line', p.key), lambda w, p=p: z3.ULT(b64(int_to_ptr(w.cur(p)).alts[0][2]), z3.SignExt(32, n))))
            for q, _, _ in v.ptrs(line):
                if p is not q:
                    oo = lambda w, p: b64(int_to_ptr(w.cur(p)).alts[0][2])
                    r.append((('behind', p.key, q.key), lambda w, p=p, q=q: z3.ULT(oo(w, p), oo(w, q))))
        return r
    c.ex.loop_inv.append(inv)
    st, r = c.run('Decoder::DecodeUx', [Ptr(d, 0), Ptr(line, 0), n])
    r = bv(r, 32)
    c.ensure(st, 'never more decoded bytes than received ones', And(r >= 0, r <= n))
    c.cover(st, 'decoded', r > 0)


@P.unit('detect-format', fn='Decoder::DetectFormat')
def detect(c):
    d = c.obj(D, 'decoder')
    line = c.cstr('line', 1 << 30)
    n = c.var('len', 32)
    c.assume(n > 0, z3.SignExt(32, n) <= line.len)
    st, r = c.run('Decoder::DetectFormat', [Ptr(d, 0), Ptr(line, 0), n])
    r = bv(r, 32)
    b = lambda i: z3.Select(c.arr(line), b64(i))
    c.ensure(st, 'yEnc exactly for =ybegin', (r == 1) == And([b(i) == ord(x) for i, x in enumerate('=ybegin ')]))
    c.cover(st, 'uuencode', r == 2)


@P.unit('keyword-lines', fn='Decoder::ProcessYenc')
def keywords(c):
    d = c.obj(D, 'decoder')
    line = c.cstr('line', 1 << 30)
    for nm in ('WebUtil::Latin1ToUtf8', 'CString::operator=', 'CString::CString', 'CString::~CString'):
        c.contract(nm, lambda ex, st, a, i: a[0] if a else None)
    b = lambda i: z3.Select(c.arr(line), b64(i))
    st, r = c.run('Decoder::ProcessYenc', [Ptr(d, 0), Ptr(line, 0), c.var('len', 32)])
    at = lambda s: And([b(i) == ord(x) for i, x in enumerate(s)])
    t = lambda f, s=None: c.truth(c.get(d, f, s))
    c.ensure(st, 'begin seen exactly with =ybegin', t('m_begin', st) == Or(t('m_begin'), at('=ybegin ')))
    c.ensure(st, 'end seen exactly with =yend', t('m_end', st) == Or(t('m_end'), at('=yend ')))
    c.ensure(st, 'data follows a part header, or =ybegin of a single-part file', Implies(Not(t('m_body')), t('m_body', st) == Or(at('=ypart '), And(at('=ybegin '), Not(t('m_part', st))))))
    c.ensure(st, 'a checksum is only taken from =yend', Implies(Not(at('=yend ')), And(t('m_crc', st) == t('m_crc'), bv(c.get(d, 'm_expectedCRC', st), 32) == bv(c.get(d, 'm_expectedCRC'), 32), bv(c.get(d, 'm_endSize', st), 64) == bv(c.get(d, 'm_endSize'), 64))))
    c.ensure(st, 'positions of a single-part file', Implies(And(at('=ybegin '), Not(t('m_part', st))), And(bv(c.get(d, 'm_beginPos', st), 64) == 1, bv(c.get(d, 'm_endPos', st), 64) == bv(c.get(d, 'm_size', st), 64))))
    c.cover(st, 'begin', at('=ybegin '))

SRC = ['daemon/nntp/Decoder.cpp', 'daemon/util/Util.cpp', 'daemon/util/NString.cpp'] + ['lib/yencode/%s.cpp' % x for x in ('ScalarDecoder', 'SimdDecoder', 'Sse2Decoder', 'Ssse3Decoder', 'SliceCrc', 'PclmulCrc', 'SimdInit')]
P.native('articles.cpp', SRC, always=True, seconds=10, label='whole articles against a reference encoder and decoder, scalar/SSE2/SSSE3 and table/PCLMUL', bound='articles up to 3000 bytes, chunks of 1..1500 bytes')
