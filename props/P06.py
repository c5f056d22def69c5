"""Health: what the failed articles mean for a download, and the verdicts drawn from it."""
from prop import *
from models import const_str

P = Property('P06', ['daemon/queue/DownloadInfo.cpp', 'daemon/queue/QueueCoordinator.cpp'])
I64 = lambda x: z3.BitVecVal(x, 64)
I32 = lambda x: z3.BitVecVal(x, 32)


def sizes(c):
    n = c.obj('NzbInfo', 'download')
    size, par, failed, pfailed = (bv(c.get(n, k), 64) for k in ('m_size', 'm_parSize', 'm_currentFailedSize', 'm_parCurrentFailedSize'))
    # sums over the files of the download (property P05)
    c.assume(par >= 0, par <= size, pfailed >= 0, pfailed <= par, failed >= pfailed, failed - pfailed <= size - par, size < I64(1 << 50))
    return n, size, par, failed, pfailed


@P.unit('health', fn='NzbInfo::CalcHealth')
def health(c):
    n, size, par, failed, pfailed = sizes(c)
    st, r = c.run('NzbInfo::CalcHealth', [Ptr(n, 0)])
    r = bv(r, 32)
    data, bad = size - par, failed - pfailed
    share = z3.Extract(31, 0, (data - bad) * 1000 / data)
    c.ensure(st, 'without failed data the health is 100%', Implies(bad == 0, Or(r == 1000, And(share != 1000, r == share))))
    c.ensure(st, 'nothing but par files: 100%', Implies(data == 0, r == 1000))
    c.ensure(st, 'otherwise the intact share of the data in tenths of a percent, and never 100%',
             Implies(And(data != 0, bad != 0), r == z3.If(share == 1000, I32(999), share)))
    c.cover(st, 'damaged', And(r == 500))


@P.unit('health-range')
def ranges(c):
    N, F = z3.Ints('data bad')
    q = ((N - F) * 1000) / N
    c.lemma('health lies in 0..1000', And(q >= 0, q <= 1000), [N > 0, F >= 0, F <= N])
    c.lemma('health is 1000 without failed data', q == 1000, [N > 0, F == 0])
    c.lemma('health is below 1000 with failed data', q < 1000, [N > 0, F > 0, F <= N])
    S, G = z3.Ints('size goodpar')
    k = ((S - 2 * G) * 1000) / (S - G)
    c.lemma('critical health lies in 0..1000', And(k >= 0, k <= 1000), [G >= 0, 2 * G <= S, S > 0])
    c.lemma('critical health is 1000 without par files', k == 1000, [G == 0, S > 0])
    c.lemma('critical health is below 1000 with intact par files', k < 1000, [G > 0, 2 * G <= S])


@P.unit('critical-health', fn='NzbInfo::CalcCriticalHealth')
def critical(c):
    n, size, par, failed, pfailed = sizes(c)
    est = c.ex.freshb('estimate')
    st, r = c.run('NzbInfo::CalcCriticalHealth', [Ptr(n, 0), est])
    r = bv(r, 32)
    good = par - pfailed
    share = z3.Extract(31, 0, (size - good * 2) * 1000 / (size - good))
    c.ensure(st, 'empty download: 100%', Implies(size == 0, r == 1000))
    c.ensure(st, 'only par files: 0', Implies(And(size != 0, size == par), r == 0))
    n1 = And(size != 0, size != par)
    c.ensure(st, 'more than half of it intact par files: 0', Implies(And(n1, good * 2 > size), r == 0))
    n2 = And(n1, Not(good * 2 > size))
    full = z3.If(B(est), I32(850), I32(1000))
    c.ensure(st, 'no par files: 100% or the empirical 85%', Implies(And(n2, par == 0, share == 1000), r == full))
    c.ensure(st, 'otherwise what the intact par files cannot replace, below 100%', Implies(And(n2, par != 0), r == z3.If(share == 1000, I32(999), share)))


DEL = ['', 'DELETED/MANUAL', 'FAILURE/HEALTH', 'DELETED/DUPE', 'FAILURE/BAD', 'DELETED/GOOD', 'DELETED/COPY', 'FAILURE/SCAN']
MARK = ['', 'FAILURE/BAD', 'SUCCESS/GOOD', 'SUCCESS/MARK']


@P.unit('status-text', fn='NzbInfo::MakeTextStatus')
def status(c):
    n = c.obj('NzbInfo', 'download')
    h, k, s = c.var('health', 32), c.var('critical', 32), c.var('script', 32)
    ign = c.ex.freshb('ignore_scripts')
    c.assume(h >= 0, h <= 1000, k >= 0, k <= 1000, z3.ULE(s, 2))
    c.contract('NzbInfo::CalcHealth', lambda ex, st, a, i: h)
    c.contract('NzbInfo::CalcCriticalHealth', lambda ex, st, a, i: k)
    c.contract('ScriptStatusList::CalcTotalStatus', lambda ex, st, a, i: s)
    f = lambda x: bv(c.get(n, x), 32)
    kind, par, unp, mov, dele, mark, url = (f('m_' + x) for x in ('kind', 'parStatus', 'unpackStatus', 'moveStatus', 'deleteStatus', 'markStatus', 'urlStatus'))
    c.assume(z3.ULE(kind, 1), z3.ULE(par, 5), z3.ULE(unp, 5), z3.ULE(mov, 2), z3.ULE(dele, 7), z3.ULE(mark, 3), z3.ULE(url, 6))
    script = z3.If(B(ign), I32(2), s)          # ScriptStatus: none, failure, success
    nopar, nounp = Or(par == 0, par == 1), Or(unp == 0, unp == 1)
    raw = And(nopar, nounp)
    rows = [(mark == i, MARK[i]) for i in (1, 2, 3)] + [(dele == i, DEL[i]) for i in range(1, 8)] + [
        (par == 2, 'FAILURE/PAR'), (unp == 2, 'FAILURE/UNPACK'), (mov == 1, 'FAILURE/MOVE'), (par == 5, 'WARNING/DAMAGED'), (par == 4, 'WARNING/REPAIRABLE'),
        (And(raw, h < k), 'FAILURE/HEALTH'), (And(raw, h < 1000), 'WARNING/HEALTH'), (And(raw, script != 1), 'SUCCESS/HEALTH'),
        (unp == 4, 'WARNING/SPACE'), (unp == 5, 'WARNING/PASSWORD'), (And(Or(unp == 3, And(nounp, par == 3)), script == 2), 'SUCCESS/ALL'),
        (And(unp == 3, script == 0), 'SUCCESS/UNPACK'), (And(par == 3, script == 0), 'SUCCESS/PAR'), (script == 1, 'WARNING/SCRIPT')]
    want = [(kind == 0, rows, 'FAILURE/INTERNAL_ERROR'),
            (kind == 1, [(dele == 1, DEL[1]), (dele == 3, DEL[3]), (dele == 5, DEL[5]), (url == 3, 'FAILURE/FETCH'), (url == 5, 'WARNING/SKIPPED'), (url == 6, 'FAILURE/SCAN')], 'FAILURE/INTERNAL_ERROR')]
    spec = []
    for g, rs, other in want:
        no = g
        for cond, text in rs:
            spec.append((And(no, cond), text))
            no = And(no, Not(cond))
        spec.append((no, other))
    outs = c.run('NzbInfo::MakeTextStatus', [Ptr(n, 0), ign], paths=True)
    for st, r in outs:
        for alt in int_to_ptr(r).alts:
            g = alt[0]
            text = const_str(c.ex, st, Ptr([(True,) + tuple(alt[1:])])).decode()
            bad = [cond for cond, t in spec if t != text]
            c.ensure(st, f'{text} is shown exactly when it applies', Implies(g, Not(Or(bad))))


@P.unit('dupe-success', fn='NzbInfo::IsDupeSuccess')
def dupe(c):
    n = c.obj('NzbInfo', 'download')
    h, k = c.var('health', 32), c.var('critical', 32)
    c.contract('NzbInfo::CalcHealth', lambda ex, st, a, i: h)
    c.contract('NzbInfo::CalcCriticalHealth', lambda ex, st, a, i: k)
    f = lambda x: bv(c.get(n, x), 32)
    par, unp, dele, mark, url = (f('m_' + x) for x in ('parStatus', 'unpackStatus', 'deleteStatus', 'markStatus', 'urlStatus'))
    c.assume(z3.ULE(par, 5), z3.ULE(unp, 5), z3.ULE(dele, 7), z3.ULE(mark, 3), z3.ULE(url, 6))
    st, r = c.run('NzbInfo::IsDupeSuccess', [Ptr(n, 0)])
    bad = Or(dele != 0, par == 2, unp == 2, unp == 5, url == 3, url == 5, url == 6, And(par == 1, unp == 1, h < k))
    c.ensure(st, 'a mark of the user decides, otherwise any failure', B(r) == Or(mark == 2, mark == 3, And(mark == 0, Not(bad))))


NO_HEALTH_CHECK, PAUSE, DELETE, PARK = 3, 0, 1, 2          # Options::EHealthCheck
GROUP_PAUSE, GROUP_DELETE, GROUP_PARK = 16, 18, 19         # DownloadQueue::EEditAction


@P.unit('health-check', fn='QueueCoordinator::CheckHealth')
def check(c):
    opt = c.obj('Options', 'g_Options')
    c.ex.global_region('g_Options').ptr_init[0] = Ptr(opt, 0)
    q, f, n, dq = c.obj('QueueCoordinator', 'coordinator'), c.obj('FileInfo', 'file'), c.obj('NzbInfo', 'download'), c.obj('DownloadQueue', 'queue')
    c.put(f, 'm_nzbInfo', Ptr(n, 0))
    dq.ptr_init[0] = c.ex.vtable('QueueCoordinator::CoordinatorDownloadQueue')
    h, k = c.var('health', 32), c.var('critical', 32)
    c.contract('NzbInfo::CalcHealth', lambda ex, st, a, i: h)

    def crit(ex, st, a, i):
        ex.oblige(st, 'post', 'the estimate is used for downloads without par files', B(a[1]), where='call of CalcCriticalHealth')
        return k
    c.contract('NzbInfo::CalcCriticalHealth', crit)
    ghost = c.buffer('orders', I64(64), 32)          # number of orders, last action, id it was given for
    g = lambda i, st=None: z3.Select(c.arr(ghost, st), I64(i))
    c.assume(g(0) == 0)

    def edit(ex, st, a, i):
        ex.store(st, Ptr(ghost, 0), g(0, st) + 1, 'i32', 4)
        ex.store(st, Ptr(ghost, 4), bv(a[2], 32), 'i32', 4)
        ex.store(st, Ptr(ghost, 8), bv(a[1], 32), 'i32', 4)
        return True
    c.contract('QueueCoordinator::CoordinatorDownloadQueue::EditEntry', edit)
    for x in ('warn', 'NzbInfo::PrintMessage'):
        c.contract(x, lambda ex, st, a, i: None)
    for x in ('CString::operator const char*', 'CString::operator char*'):
        c.contract(x, lambda ex, st, a, i: NULLPTR)
    N = lambda x, st=None: bv(c.get(n, x, st), 32)
    mode, scan = bv(c.get(opt, 'm_healthCheck'), 32), bv(c.get(opt, 'm_parScan'), 32)
    total, good = N('m_totalArticles'), N('m_successArticles')
    c.assume(z3.ULE(mode, 3), z3.ULE(scan, 3))
    # a download below its critical health has failed articles, and its article count is the sum over its files (property P05)
    c.assume(Implies(h < k, total > 0), good >= 0, good <= total, total < (1 << 24))
    paused, dele = c.truth(c.get(n, 'm_healthPaused')), N('m_deleteStatus')
    st, r = c.run('QueueCoordinator::CheckHealth', [Ptr(q, 0), Ptr(dq, 0), Ptr(f, 0)])
    keep = And(scan == 3, mode == PARK, (good * 100) / total > 10)
    act = And(mode != NO_HEALTH_CHECK, Not(paused), dele != 2, h < k, Not(keep))
    c.ensure(st, 'action is taken exactly for downloads below critical health, and once', g(0, st) == z3.If(B(act), I32(1), I32(0)))
    c.ensure(st, 'the configured action', Implies(act, g(1, st) == z3.If(mode == PAUSE, I32(GROUP_PAUSE), z3.If(mode == PARK, I32(GROUP_PARK), I32(GROUP_DELETE)))))
    c.ensure(st, 'for the download of the file', Implies(act, g(2, st) == N('m_id')))
    c.ensure(st, 'the decision is recorded so that it is not repeated', And(
        c.truth(c.get(n, 'm_healthPaused', st)) == Or(paused, And(act, mode == PAUSE)), N('m_deleteStatus', st) == z3.If(And(act, mode != PAUSE), I32(2), dele)))
    c.cover(st, 'paused', And(act, mode == PAUSE))


P.native('health.cpp', ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/nntp/ArticleDownloader.cpp', 'daemon/nntp/Decoder.cpp', 'daemon/util/Observer.cpp',
         'daemon/util/NString.cpp', 'daemon/util/Util.cpp', 'daemon/util/FileSystem.cpp', 'daemon/util/Thread.cpp', 'lib/yencode/SliceCrc.cpp', 'lib/yencode/SimdInit.cpp'],
         always=True, seconds=6, label='random downloads: health, critical health, status text and health check against their definitions', bound='random sizes up to 2^48, all status combinations sampled')
