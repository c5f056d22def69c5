"""Which article is downloaded next.  Ghost naming: file j of the download n of the queue is n<<20|j (so the numbers are the order
of the queue), article k of it is file<<20|k."""
from prop import *
import re

P = Property('P07', ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp'])
I64 = lambda x: z3.BitVecVal(x, 64)
I32 = lambda x: z3.BitVecVal(x, 32)
UNDEFINED, RUNNING = 0, 1           # ArticleInfo::EStatus
TS_RUNNING = 1                      # NzbInfo::EDirectRenameStatus


class Queue:
    def __init__(self, c):
        self.c, ex = c, c.ex
        ex.cfg.spec_only = True
        self.ex = ex
        self.opt, self.work, self.q, self.dq = c.obj('Options', 'g_Options'), c.obj('WorkState', 'g_WorkState'), c.obj('QueueCoordinator', 'coordinator'), c.obj('DownloadQueue', 'queue')
        for n, o in (('g_Options', self.opt), ('g_WorkState', self.work)):
            ex.global_region(n).ptr_init[0] = Ptr(o, 0)
        ex.global_region('g_DiskState').ptr_init[0] = Ptr(ex.new_region('disk state', 64, []), 0)
        self.nzbs, self.files, self.arts = c.family('NzbInfo', 'downloads'), c.family('FileInfo', 'files'), c.family('ArticleInfo', 'articles')
        self.nq = c.var('downloads', 64)
        self.nf, self.na = z3.Function('files_of', z3.BitVecSort(64), z3.BitVecSort(64)), z3.Function('articles_of', z3.BitVecSort(64), z3.BitVecSort(64))
        c.assume(z3.ULT(self.nq, I64(1 << 20)))
        self.iters = {}
        # which files have their articles in memory: all of them unless in server mode
        self.mem = c.buffer('articles in memory', I64(1 << 62), 8)
        m = c.arr(self.mem)
        c.assume(Forall(lambda k: Or(z3.Select(m, k) != 0, c.truth(c.get(self.opt, 'm_serverMode'))), roots_of(m)))
        self.off_nzb = ex.off('FileInfo', 'm_nzbInfo')
        self.nz = ex.fam_cell(c.st, self.files, self.off_nzb, 8)
        self.files.ptr_cells[self.off_nzb] = self.nzbs
        self.nz = ex.fam_cell(c.st, self.files, self.off_nzb, 8)
        c.assume(Forall(lambda k: z3.Select(self.nz, k) == z3.LShR(k, 20), roots_of(self.nz)))
        self.deque('NzbInfo', lambda p: self.nq, lambda p, i: self.nzb_ptr(i + 1))
        self.deque('FileInfo', lambda p: self.limit(self.nf(self.owner(p, self.nzbs))), lambda p, i: self.file_ptr(self.owner(p, self.nzbs), i))
        self.articles()
        self.now = c.var('now', 64)
        c.assume(self.now >= 0, self.now < (1 << 31) - (1 << 22))
        self.delay = bv(c.get(self.opt, 'm_propagationDelay'), 32)
        c.assume(self.delay >= 0, self.delay < (1 << 21))
        c.contract('Util::CurrentTime', lambda ex, st, a, i: self.now)
        c.contract('DownloadQueue::GetQueue', lambda ex, st, a, i: Ptr(self.dq, 0))
        for f in ('DiskState::LoadArticles', 'QueueCoordinator::LoadPartialState'):
            c.contract(f, self.load_articles)
        T = ex.fam_cell(c.st, self.files, ex.off('FileInfo', 'm_time'), 8)
        c.assume(Forall(lambda k: And(z3.Select(T, k) >= 0, z3.Select(T, k) < (1 << 31) - (1 << 22)), roots_of(T)))

    def limit(self, n):
        self.c.ex.assume(None, z3.ULT(n, I64(1 << 20)))
        return n

    def nzb_ptr(self, i):
        self.ex.assume(None, i != 0)
        return Ptr(Elem(self.nzbs, i), 0)

    def file_ptr(self, n, j):
        return Ptr(Elem(self.files, self.file(n, j)), 0)

    def file(self, n, j):
        return z3.simplify((n << 20) | j)

    def owner(self, p, fam):
        """the object a member container belongs to"""
        r = None
        for g, reg, off, s in p.alts:
            if reg.kind == 'null':
                continue
            if not (isinstance(reg, Elem) and reg.fam is fam):
                raise Inconclusive(f'container of {reg} instead of {fam.name}')
            r = bv(reg.idx, 64) if r is None else ite(g, bv(reg.idx, 64), r, 64)
        if r is None:
            raise Inconclusive('container of no object')
        return r

    def load_articles(self, ex, st, a, i):
        """articles which are still on the disk are loaded (the state file tells what na and the states of the articles are)"""
        if 'LoadArticles' not in i['dem']:
            return None
        f = ex.ptr_idx(int_to_ptr(a[1]), self.files)
        ex.oblige(st, 'pre', 'the articles are not loaded yet', Or(z3.Select(self.c.arr(self.mem, st), f) == 0, self.na(f) == 0), where='DiskState::LoadArticles')
        ex.store(st, Ptr(self.mem, f), 1, 'i8', 1)
        return True

    def memory(self, w):
        m = self.c.arr(self.mem, w.st)
        return Forall(lambda k: Or(z3.Select(m, k) != 0, self.c.truth(self.c.get(self.opt, 'm_serverMode'))), roots_of(m))

    def count(self, st, f):
        return z3.If(z3.Select(self.c.arr(self.mem, st), f) != 0, self.limit(self.na(f)), I64(0))

    def deque(self, T, count, element):
        c = self.c
        c.deque(f'unique_ptr {T}', lambda ex, st, p: self.note(T, None) or count(p), lambda ex, st, p, i: element(p, i))
        # remembers which variables are the running iterators
        e, q = re.escape(f'std::unique_ptr<{T}, std::default_delete<{T}>>'), re.escape(T)
        inner = [(pat, h) for pat, h in c.ex.patterns if re.search(r'begin', pat.pattern) and q in pat.pattern]
        for pat, h in inner:
            def hh(ex, st, a, i, h=h):
                for g, r, o, s in int_to_ptr(a[0]).alts:
                    self.iters.setdefault(T, {})[r.id] = r
                return h(ex, st, a, i)
            c.ex.patterns[c.ex.patterns.index((pat, h))] = (pat, hh)

    def note(self, T, x):
        return None

    def articles(self):
        c, ex = self.c, self.ex
        A = 'ArticleInfo'
        ptr = lambda st, p: self.ex.ptr_idx(int_to_ptr(ex.load(st, int_to_ptr(p), 'ptr', 8)), self.arts)
        mk = lambda i: Ptr(Elem(self.arts, z3.simplify(i)), 0)
        first = lambda p: self.owner(p, self.files) << 20

        def nxt(ex, st, a, i):
            k = ptr(st, a[0])
            ex.store(st, int_to_ptr(a[0]), mk(k + 1), 'ptr', 8)
            return mk(k)

        def at(ex, st, a, i):
            p = int_to_ptr(a[0])
            k = bv(a[1], 64)
            ex.oblige(st, 'pre', 'the article exists', z3.ULT(k, self.count(st, self.owner(p, self.files))), where='std::vector<ArticleInfo>')
            r = ex.new_region('owner', 8, [])
            r.ptr_init[0] = mk(first(p) + k)
            return Ptr(r, 0)
        v = r'std::vector<std::unique_ptr<ArticleInfo, [^:]*std::default_delete<ArticleInfo>>, .*>::'
        for pat, h in (
                (r'(?:^|> )begin<ArticleInfo>\(', lambda ex, st, a, i: mk(first(int_to_ptr(a[0])))),
                (r'(?:^|> )end<ArticleInfo>\(', lambda ex, st, a, i: mk(first(int_to_ptr(a[0])) + self.count(st, self.owner(int_to_ptr(a[0]), self.files)))),
                (r'operator!=<ArticleInfo>', lambda ex, st, a, i: ptr(st, a[0]) != ptr(st, a[1])),
                (r'operator\*<ArticleInfo>', lambda ex, st, a, i: mk(ptr(st, a[0]))),
                (r'operator\+\+<ArticleInfo>', nxt),
                (v + r'empty\(', lambda ex, st, a, i: self.count(st, self.owner(int_to_ptr(a[0]), self.files)) == 0),
                (v + r'size\(', lambda ex, st, a, i: self.count(st, self.owner(int_to_ptr(a[0]), self.files))),
                (v + r'(?:at|operator\[\])\(', at)):
            ex.patterns.append((re.compile(pat), h))

    # ---- the rules
    def F(self, f, k, w=None, st=None):
        v = self.c.get(self.files.at(f), k, st)
        return bv(v, w) if w else self.c.truth(v)

    def N(self, f, k, w=32, st=None):
        return bv(self.c.get(self.nzbs.at(z3.LShR(f, 20)), k, st), w)

    def status(self, a, st=None):
        return bv(self.c.get(self.arts.at(a), 'm_status', st), 32)

    def may(self, f, strict):
        """the file may be downloaded (strict: certainly, not in the very second in which the propagation delay ends)"""
        c = self.c
        stopped = Or(c.truth(c.get(self.work, 'm_pauseDownload')), c.truth(c.get(self.work, 'm_quotaReached')))
        t = self.F(f, 'm_time', 64) + z3.SignExt(32, self.delay)
        wait = And(self.delay > 0, t >= self.now if strict else t > self.now)
        return And(Not(self.F(f, 'm_paused')), Not(self.F(f, 'm_deleted')), Implies(stopped, self.N(f, 'm_priority') >= 900), Not(wait))

    def rank(self, f, of_file):
        a = self.F(f, 'm_extraPriority') if of_file else self.N(f, 'm_extraPriority') > 0
        return a, self.N(f, 'm_priority')

    def less(self, x, y):
        return Or(And(Not(x[0]), y[0]), And(B(x[0]) == B(y[0]), x[1] < y[1]))

    def below(self, f, g, of_file):
        return self.less(self.rank(f, of_file), self.rank(g, of_file))

    def outranked(self, f, g):
        """file f must not be chosen when g can be downloaded"""
        same = z3.LShR(f, 20) == z3.LShR(g, 20)
        fb, nb = self.below(f, g, True), self.below(f, g, False)
        later = z3.ULT(g, f)
        return Or(And(fb, nb), And(same, fb), And(later, Not(self.below(g, f, False)), Not(self.below(g, f, True))))


def position(q, w, T):
    """index of the running iterator over downloads / files"""
    res = []
    for r in q.iters.get(T, {}).values():
        try:
            res.append(bv(w.ex.load(w.st, Ptr(r, 0), 'i64', 8), 64))
        except (Inconclusive, KeyError):
            pass
    return res


@P.unit('choice', fn='QueueCoordinator::GetNextArticle')
def choice(c):
    q = Queue(c)
    ex = c.ex
    checked = c.buffer('checked', I64(1 << 62), 8)
    sel = z3.Select
    chk = lambda f, st: sel(c.arr(checked, st), f) != 0
    c.assume(Forall(lambda k: sel(c.arr(checked), k) == 0, roots_of(c.arr(checked))))
    tok = ex.new_region('iterator of checked files', 16, [])
    fidx = lambda st, p: ex.ptr_idx(int_to_ptr(ex.load(st, int_to_ptr(p), 'ptr', 8)), q.files)

    def empty(ex, st, a, i):
        e = ex.freshb('nothing checked')
        arr = c.arr(checked, st)
        ex.assume(None, Forall(lambda k: Implies(e, sel(arr, k) == 0), roots_of(arr)))
        return e

    v = r'std::vector<FileInfo\*, std::allocator<FileInfo\*>>'
    for pat, h in (
            (rf'^{v}::(?:vector|~vector|reserve)\(', lambda ex, st, a, i: None), (rf'^{v}::empty\(', empty),
            (rf'^{v}::begin\(', lambda ex, st, a, i: Ptr(tok, 0)), (rf'^{v}::end\(', lambda ex, st, a, i: Ptr(tok, 8)),
            (rf'std::find<.*FileInfo\*', lambda ex, st, a, i: Ptr(tok, z3.If(chk(fidx(st, a[2]), st), I64(0), I64(8)))),
            (rf'^{v}::push_back\(', lambda ex, st, a, i: ex.store(st, Ptr(checked, fidx(st, a[1])), 1, 'i8', 1))):
        ex.patterns.append((re.compile(pat), h))
    fi, ai = c.ptrbox('fileInfo', NULLPTR), c.ptrbox('articleInfo', NULLPTR)
    cur = lambda st: ex.ptr_idx(c.unbox(fi, st), q.files)
    art = lambda st: ex.ptr_idx(c.unbox(ai, st), q.arts)
    # an arbitrary file which may be downloaded and has an article waiting
    n0, j0, k0 = c.var('some_download', 64), c.var('some_file', 64), c.var('some_article', 64)
    g, a0 = q.file(n0, j0), None
    a0 = (g << 20) | k0
    c.assume(n0 != 0, z3.ULE(n0, q.nq), z3.ULT(j0, q.nf(n0)), z3.ULT(q.nf(n0), I64(1 << 20)), z3.ULT(k0, q.na(g)), z3.ULT(q.na(g), I64(1 << 20)))
    waiting = And(q.may(g, True), q.status(a0) == UNDEFINED)
    # P05: the counter of paused files is right
    c.assume(Implies(Not(q.F(g, 'm_paused')), z3.Extract(31, 0, q.nf(n0)) - q.N(g, 'm_pausedFileCount') > 0))
    ghost = c.buffer('renamed', I64(16), 8)
    renamed = lambda st: sel(c.arr(ghost, st), I64(0)) != 0
    c.assume(sel(c.arr(ghost), I64(0)) == 0)

    def first(ex, st, a, i):
        """looks for a file without name (unit 'first')"""
        f = cur(st)
        p = ex.ptr_idx(int_to_ptr(a[1]), q.nzbs)
        ex.oblige(st, 'post', 'names are looked for in the download chosen', p == z3.LShR(f, 20), where='GetNextFirstArticle')
        ex.oblige(st, 'post', 'the file chosen may be downloaded', And(f != 0, q.may(f, False)), where='GetNextFirstArticle')
        ex.oblige(st, 'post', 'names are looked for only with the option', c.truth(c.get(q.opt, 'm_directRename')), where='GetNextFirstArticle')
        found = ex.freshb('found')
        ex.store(st, Ptr(ghost, 0), z3.If(B(found), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 'i8', 1)
        return found
    c.contract('QueueCoordinator::GetNextFirstArticle', first)
    passed_by = lambda f, p: And(f != 0, z3.ULT(I64(0), z3.LShR(f, 20)), z3.ULE(z3.LShR(f, 20), p))

    def real(w):
        """the pointer is null or points to a file"""
        return And(*[Implies(B(al[0]), bv(al[1].idx, 64) != 0) for al in c.unbox(fi, w.st).alts if isinstance(al[1], Elem)])

    def inv(v):
        mods = {m[1] for m in v.mods if m[0] in ('cell', 'seg')}
        it = {T: mods & set(q.iters.get(T, {})) for T in ('NzbInfo', 'FileInfo')}
        r = [(('file or nothing',), real), (('articles in memory',), q.memory)]
        if checked.id in mods or (it['NzbInfo'] and any(m[0] == 'seg' for m in v.mods)):
            r.append((('waiting file not dismissed',), lambda w: Implies(waiting, Not(chk(g, w.st)))))
            r.append((('names not found',), lambda w: Not(renamed(w.st))))
            return r
        if it['NzbInfo'] or it['FileInfo']:
            inner = not it['NzbInfo']

            def pos(w):
                n = position(q, w, 'NzbInfo')
                j = position(q, w, 'FileInfo') if inner else [None]
                if len(n) != 1 or len(j) != 1:
                    raise Inconclusive('loops over the queue not recognised')
                return n[0], j[0]

            def chosen(w):
                n, j = pos(w)
                f = cur(w.st)
                at = z3.LShR(f, 20)
                inside = z3.ULE(at, n)
                if inner:
                    inside = Or(inside, And(at == n + 1, z3.ULT(f & I64((1 << 20) - 1), j)))
                return Implies(f != 0, And(at != 0, inside, z3.ULT(f, I64(1 << 40)), q.may(f, False), Not(chk(f, w.st))))
            r.append((('chosen so far',), chosen))

            def best(w):
                n, j = pos(w)
                f = cur(w.st)
                over = z3.ULE(n0, n)
                if inner:
                    over = Or(over, And(n0 == n + 1, z3.ULT(j0, j)))
                return Implies(And(over, waiting), And(f != 0, Not(q.outranked(f, g))))
            r.append((('best so far',), best))
            if inner:
                def entered(w):
                    n, j = pos(w)
                    f = cur(w.st)
                    return And(z3.ULT(n, q.nq), Implies(And(f != 0, z3.LShR(f, 20) != n + 1), q.below(f, (n + 1) << 20, False)))
                r.append((('entered for a reason',), entered))

                def place(w):
                    n, j = pos(w)
                    return z3.ULE(j, q.nf(n + 1))
                r.append((('place in the list',), place))
            else:
                r.append((('place in the queue',), lambda w: z3.ULE(pos(w)[0], q.nq)))
            return r
        for x in v.vars:
            try:
                if x.ptr and x.key[1:2] != (ai.id,):
                    ex.ptr_idx(int_to_ptr(v.cur(x)), q.arts)
                else:
                    continue
            except (Inconclusive, KeyError):
                continue
            cursor = lambda w, x=x: ex.ptr_idx(int_to_ptr(w.cur(x)), q.arts)
            r.append((('article', x.key), lambda w, cursor=cursor: And(z3.LShR(cursor(w), 20) == cur(w.st), z3.ULE(cursor(w) & I64((1 << 20) - 1), q.na(cur(w.st))))))
            r.append((('none waiting before', x.key), lambda w, cursor=cursor: Implies(And(waiting, cur(w.st) == g), z3.ULE(cursor(w), a0))))
        return r
    ex.loop_inv.append(inv)
    st, ok = c.run('QueueCoordinator::GetNextArticle', [Ptr(q.q, 0), Ptr(q.dq, 0), Ptr(fi, 0), Ptr(ai, 0)])
    ok = B(ok)
    f, a = cur(st), art(st)
    plain = And(ok, Not(renamed(st)))
    c.ensure(st, 'the file chosen may be downloaded', Implies(plain, And(f != 0, q.may(f, False))))
    c.ensure(st, 'the article is one of the file and waits for download', Implies(plain, And(z3.LShR(a, 20) == f, q.status(a) == UNDEFINED)))
    c.ensure(st, 'no waiting file goes before the chosen one', Implies(And(plain, waiting), Not(q.outranked(f, g))))
    c.ensure(st, 'the articles of a file are taken in order', Implies(And(plain, waiting, f == g), z3.ULE(a, a0)))
    c.ensure(st, 'a waiting file is not refused', Implies(waiting, ok))
    c.cover(st, 'chosen', plain)


@P.unit('first', fn='QueueCoordinator::GetNextFirstArticle')
def first_articles(c):
    q = Queue(c)
    ex = c.ex
    fi, ai = c.ptrbox('fileInfo', NULLPTR), c.ptrbox('articleInfo', NULLPTR)
    n, j0 = c.var('download', 64), c.var('some_file', 64)
    c.assume(n != 0, z3.ULE(n, q.nq), z3.ULT(j0, q.nf(n)), z3.ULT(q.nf(n), I64(1 << 20)))
    g = q.file(n, j0)
    lacks = And(Not(q.F(g, 'm_filenameConfirmed')), q.na(g) != 0, z3.ULT(q.na(g), I64(1 << 20)), q.status(g << 20) == UNDEFINED)

    def inv(v):
        mods = {m[1] for m in v.mods if m[0] == 'cell'}
        if not mods & set(q.iters.get('FileInfo', {})):
            return []

        def skipped(w):
            j = position(q, w, 'FileInfo')
            if len(j) != 1:
                raise Inconclusive('loop over the files not recognised')
            return And(z3.ULE(j[0], q.nf(n)), Implies(lacks, z3.ULE(j[0], j0)))
        return [(('none without name before',), skipped), (('articles in memory',), q.memory)]
    ex.loop_inv.append(inv)
    st, ok = c.run('QueueCoordinator::GetNextFirstArticle', [Ptr(q.q, 0), Ptr(Elem(q.nzbs, n), 0), Ptr(fi, 0), Ptr(ai, 0)])
    f, a = ex.ptr_idx(c.unbox(fi, st), q.files), ex.ptr_idx(c.unbox(ai, st), q.arts)
    c.ensure(st, 'a file of the download without confirmed name', Implies(B(ok), And(z3.LShR(f, 20) == n, Not(q.F(f, 'm_filenameConfirmed')))))
    c.ensure(st, 'its first article, which waits for download', Implies(B(ok), And(a == f << 20, q.status(a) == UNDEFINED)))
    c.ensure(st, 'the first one in the list', Implies(And(B(ok), lacks), z3.ULE(f, g)))
    c.ensure(st, 'none is forgotten', Implies(lacks, B(ok)))
    c.ensure(st, 'the search ends exactly when none is left', Implies(Not(B(ok)), c.truth(c.get(q.nzbs.at(n), 'm_allFirst', st))))
    c.cover(st, 'found', B(ok))


@P.unit('start', fn='QueueCoordinator::StartArticleDownload')
def start(c):
    q = Queue(c)
    ex = c.ex
    f, a = c.var('file', 64), c.var('article', 64)
    c.assume(z3.LShR(f, 20) != 0, z3.LShR(a, 20) == f, f != 0, a != 0)
    made = []
    vt = ex.new_region('vtable', 160, [])
    for o in range(0, 160, 8):
        vt.ptr_init[o] = Ptr(vc.Region('virtual', 0, kind='func'), 0)
    ghost = c.buffer('log', I64(64), 32)          # virtual calls on the new download, entries of the list of active ones, wrong entries
    note = lambda ex, st, k: ex.store(st, Ptr(ghost, 4 * k), z3.Select(c.arr(ghost, st), I64(k)) + 1, 'i32', 4)
    for k in (0, 1, 2):
        c.assume(z3.Select(c.arr(ghost), I64(k)) == 0)
    new = lambda: made[0] if len(made) == 1 else (_ for _ in ()).throw(Inconclusive('the new download is not recognised'))
    same = lambda p: all(al[1] is new() for al in int_to_ptr(p).alts)

    def ctor(ex, st, args, i):
        made.append(int_to_ptr(args[0]).alts[0][1])
        ex.store(st, args[0], Ptr(vt, 0), 'ptr', 8)
        return None
    c.contract('ArticleDownloader::ArticleDownloader', ctor)

    def started(ex, st, args, i):
        ex.oblige(st, 'post', 'the new download is started', same(args[0]), where='call of a virtual function')
        ex.oblige(st, 'post', 'the download is started when everything is recorded', And(q.status(a, st) == RUNNING, *at_start(st)), where='call of a virtual function')
        note(ex, st, 0)
        return None
    c.contract('virtual', started)

    def push(ex, st, args, i):
        p = int_to_ptr(ex.load(st, int_to_ptr(args[1]), 'ptr', 8))
        note(ex, st, 1 if same(p) else 2)
        return None
    for pat, h in ((r'^std::(?:__cxx11::)?list<ArticleDownloader\*.*>::(?:push_back|push_front|emplace_back)', push), (r'^BString<\d+>::', lambda ex, st, args, i: text if 'operator' in i['dem'] else None), (r'^unique_ptr<ArticleContentAnalyzer|^std::unique_ptr<ArticleContentAnalyzer', lambda ex, st, args, i: None)):
        ex.patterns.append((re.compile(pat), h))
    text = c.text('name')
    for x in ('ArticleDownloader::SetContentAnalyzer', 'DirectRenamer::MakeArticleContentAnalyzer', 'ArticleDownloader::SetInfoName', 'Subject::Attach', 'Thread::SetAutoDestroy', 'NzbInfo::GetName', 'FileInfo::GetFilename', 'debug'):
        c.contract(x, lambda ex, st, args, i: text if i['dem'].split('(')[0].endswith('ame') and 'Get' in i['dem'] else None)
    # the mutex of the output file comes and goes with the first and last active download
    ex.patterns.append((re.compile(r'^std::unique_ptr<Mutex,.*>::operator bool'), lambda ex, st, args, i: ex.freshb('has mutex')))
    ex.patterns.append((re.compile(r'unique_ptr<Mutex|make_unique<Mutex'), lambda ex, st, args, i: None))
    member = lambda k, st: int_to_ptr(ex.load(st, Ptr(new(), ex.off('ArticleDownloader', k)), 'ptr', 8))
    ptrs = lambda st: (ex.ptr_idx(member('m_fileInfo', st), q.files), ex.ptr_idx(member('m_articleInfo', st), q.arts))

    def at_start(st):
        x, y = ptrs(st)
        return [x == f, y == a]
    st, _ = c.run('QueueCoordinator::StartArticleDownload', [Ptr(q.q, 0), Ptr(Elem(q.files, f), 0), Ptr(Elem(q.arts, a), 0), NULLPTR])
    c.ensure(st, 'the article is marked as running, so that nobody else downloads it', q.status(a, st) == RUNNING)
    x = c.var('other', 64)
    c.ensure(st, 'no other article changes', Implies(And(x != a, x != 0), q.status(x, st) == q.status(x)))
    c.ensure(st, 'the download is for the article of the file', And(*at_start(st)))
    c.ensure(st, 'counted in the file and the download', And(q.F(f, 'm_activeDownloads', 32, st) == q.F(f, 'm_activeDownloads', 32) + 1, q.N(f, 'm_activeDownloads', 32, st) == q.N(f, 'm_activeDownloads', 32) + 1))
    n = lambda k: z3.Select(c.arr(ghost, st), I64(k))
    c.ensure(st, 'exactly one download is started and kept in the list of active ones', And(n(0) == 1, n(1) == 1, n(2) == 0))


P.native('next.cpp', ['daemon/queue/QueueCoordinator.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/nntp/ArticleDownloader.cpp', 'daemon/nntp/Decoder.cpp', 'daemon/util/Observer.cpp',
         'daemon/util/NString.cpp', 'daemon/util/Util.cpp', 'daemon/util/FileSystem.cpp', 'daemon/util/Thread.cpp', 'lib/yencode/SliceCrc.cpp', 'lib/yencode/SimdInit.cpp'],
         always=True, seconds=8, label='random queues: the article downloaded next against the rules', bound='up to 4 downloads of 4 files with 3 articles')
