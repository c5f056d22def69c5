"""Article acceptance: success is reported only for articles which were received completely and match their checksums."""
from prop import *

P = Property('P03', ['daemon/nntp/Decoder.cpp', 'daemon/nntp/ArticleDownloader.cpp', 'daemon/util/NString.cpp'])
UNKNOWN, FINISHED, INCOMPLETE, CRCERR, BADSIZE, NODATA = range(6)      # Decoder::EStatus
D = 'Decoder'


def dec_obj(c):
    d = c.obj(D, 'decoder')
    g = lambda f, st=None: c.get(d, f, st)
    t = lambda f, st=None: c.truth(g(f, st))
    return d, g, t


@P.unit('yenc-verdict', fn='Decoder::CheckYenc')
def verdict(c):
    d, g, t = dec_obj(c)
    crc = c.var('crc_of_decoded_bytes', 32)
    c.contract('Crc32::Finish', lambda ex, st, a, i: crc)
    st, r = c.run('Decoder::CheckYenc', [Ptr(d, 0)])
    r = bv(r, 32)
    szok = And(Implies(Not(t('m_part')), g('m_size') == g('m_endSize')), g('m_endSize') == g('m_outSize'))
    crcok = Or(Not(t('m_crcCheck')), Not(t('m_crc')), g('m_expectedCRC') == crc)
    c.ensure(st, 'success exactly for complete articles with matching size and checksum',
             (r == FINISHED) == And(t('m_begin'), t('m_end'), szok, crcok))
    c.ensure(st, 'no begin marker: no binary data', Implies(Not(t('m_begin')), r == NODATA))
    c.ensure(st, 'no end marker: incomplete', Implies(And(t('m_begin'), Not(t('m_end'))), r == INCOMPLETE))
    c.ensure(st, 'size mismatch', Implies(And(t('m_begin'), t('m_end'), Not(szok)), r == BADSIZE))
    c.ensure(st, 'checksum mismatch', Implies(And(t('m_begin'), t('m_end'), szok, Not(crcok)), r == CRCERR))
    c.ensure(st, 'calculated checksum recorded', bv(c.get(d, 'm_calculatedCRC', st), 32) == crc)
    c.cover(st, 'success', r == FINISHED)
    c.cover(st, 'checksum error', r == CRCERR)


@P.unit('verdict-by-format', fn='Decoder::Check')
def by_format(c):
    d, g, t = dec_obj(c)
    y = c.var('yenc_verdict', 32)
    c.contract('Decoder::CheckYenc', lambda ex, st, a, i: y)
    st, r = c.run('Decoder::Check', [Ptr(d, 0)])
    r = bv(r, 32)
    f = bv(g('m_format'), 32)
    c.ensure(st, 'yEnc verdict decides yEnc articles', Implies(f == 1, r == y))
    c.ensure(st, 'uuencoded articles need a body', Implies(f == 2, r == z3.If(t('m_body'), z3.BitVecVal(FINISHED, 32), z3.BitVecVal(NODATA, 32))))
    c.ensure(st, 'unrecognised text is never accepted', Implies(And(f != 1, f != 2), r == UNKNOWN))


@P.unit('clear', fn='Decoder::Clear')
def clear(c):
    d, g, t = dec_obj(c)
    for n in ('CString::Clear', 'StringBuilder::Reserve', 'StringBuilder::SetLength', 'Crc32::Reset'):
        c.contract(n, lambda ex, st, a, i: None)
    st, r = c.run('Decoder::Clear', [Ptr(d, 0)])
    for f in ('m_body', 'm_begin', 'm_part', 'm_end', 'm_crc', 'm_eof'):
        c.ensure(st, f'{f} starts false', Not(t(f, st)))
    for f in ('m_size', 'm_endSize', 'm_outSize', 'm_state', 'm_expectedCRC', 'm_beginPos', 'm_endPos', 'm_format'):
        v = g(f, st)
        c.ensure(st, f'{f} starts zero', v == 0)


ADS = dict(undefined=0, running=1, waiting=2, finished=3, failed=4, retry=5, crc=6, notfound=7, connect=8, fatal=9)


def global_obj(c, name, ty):
    """the object a global pointer (g_Options ...) refers to"""
    g = c.ex.global_region(name)
    o = c.obj(ty, name)
    g.ptr_init[0] = Ptr(o, 0)
    return o


@P.unit('decode-check', fn='ArticleDownloader::DecodeCheck')
def decode_check(c):
    opt = global_obj(c, 'g_Options', 'Options')
    a = c.obj('ArticleDownloader', 'downloader')
    art = c.obj('ArticleInfo', 'article')
    c.put(a, 'm_articleInfo', Ptr(art, 0))
    v, ccrc, ecrc = c.var('verdict', 32), c.get(a, 'm_decoder.m_calculatedCRC'), c.get(a, 'm_decoder.m_expectedCRC')
    c.assume(z3.ULE(v, 5))
    c.contract('Decoder::Check', lambda ex, st, x, i: v)
    for n in ('CString::operator=', 'detail', 'CString::operator const char*', 'Decoder::GetArticleFilename'):
        c.contract(n, lambda ex, st, x, i: NULLPTR)
    raw, chk = c.truth(c.get(opt, 'm_rawArticle')), c.truth(c.get(opt, 'm_crcCheck'))
    st, r = c.run('ArticleDownloader::DecodeCheck', [Ptr(a, 0)])
    r = bv(r, 32)
    c.ensure(st, 'finished only after a positive verdict (or in raw mode)', (r == ADS['finished']) == Or(raw, v == FINISHED))
    c.ensure(st, 'checksum error reported as such', (r == ADS['crc']) == And(Not(raw), v == CRCERR))
    c.ensure(st, 'everything else is a failure', Or(r == ADS['finished'], r == ADS['crc'], r == ADS['failed']))
    yenc = bv(c.get(a, 'm_decoder.m_format'), 32) == 1
    c.ensure(st, 'checksum stored with the article', Implies(And(Not(raw), v == FINISHED, yenc), bv(c.get(art, 'm_crc', st), 32) == z3.If(chk, bv(ccrc, 32), bv(ecrc, 32))))
    c.ensure(st, 'no checksum stored otherwise', Implies(Not(And(Not(raw), v == FINISHED, yenc)), bv(c.get(art, 'm_crc', st), 32) == bv(c.get(art, 'm_crc'), 32)))
    c.cover(st, 'accepted', And(Not(raw), r == ADS['finished']))


@P.unit('response-check', fn='ArticleDownloader::CheckResponse')
def response(c):
    a = c.obj('ArticleDownloader', 'downloader')
    conn = c.obj('NntpConnection', 'connection')
    c.put(a, 'm_connection', Ptr(conn, 0))
    for n in ('detail', 'CString::operator const char*', 'CString::operator*'):
        c.contract(n, lambda ex, st, x, i: NULLPTR)
    stopped = c.ex.freshb('stopped')
    c.contract('Thread::IsStopped', lambda ex, st, x, i: stopped)
    t = c.cstr('response')
    b = lambda i: z3.Select(c.arr(t), z3.BitVecVal(i, 64))
    isnull = c.ex.freshb('no_response')
    st, r = c.run('ArticleDownloader::CheckResponse', [Ptr(a, 0), Ptr([(isnull, NULL, 0, None), (Not(isnull), t, 0, None)]), NULLPTR])
    r = bv(r, 32)
    auth = c.truth(c.get(conn, 'm_authError'))
    c.ensure(st, 'closed connection', Implies(isnull, r == ADS['connect']))
    code = lambda s: And([b(i) == ord(x) for i, x in enumerate(s)])
    nn = Not(isnull)
    bad = Or(auth, code('400'), code('499'))
    nf = Or(code('41'), code('42'), code('43'))
    c.ensure(st, 'only a 2xx response is a success', (r == ADS['finished']) == And(nn, Not(bad), code('2')))
    c.ensure(st, 'missing article', (r == ADS['notfound']) == And(nn, Not(bad), nf))
    c.ensure(st, 'server errors', (r == ADS['connect']) == Or(isnull, bad))
    c.ensure(st, 'otherwise failed', Or([r == ADS[k] for k in ('finished', 'notfound', 'connect', 'failed')]))
