from prop import *
from models import const_str
P = Property('P19', ['daemon/queue/DiskState.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/util/NString.cpp', 'daemon/util/Util.cpp', 'daemon/util/FileSystem.cpp'])
P.native('state.cpp', ['daemon/queue/DiskState.cpp', 'daemon/queue/DownloadInfo.cpp', 'daemon/util/NString.cpp', 'daemon/util/Util.cpp', 'daemon/util/FileSystem.cpp',
                       'daemon/nntp/NewsServer.cpp', 'daemon/nntp/StatMeter.cpp', 'daemon/feed/FeedInfo.cpp', 'daemon/util/Thread.cpp', 'daemon/util/Observer.cpp'], always=True, seconds=8,
         label='real saves and loads of queue, history, progress, files, partial files, feeds, statistics and messages in a scratch directory',
         bound='up to 3 groups of 3 files and 6 articles, 3 history items; texts within the reader\'s line length')

I64 = lambda x: z3.BitVecVal(x, 64)
PERSISTED = '''m_id m_kind m_priority m_deletePaused m_manyDupeFiles m_feedId m_parStatus m_unpackStatus m_moveStatus m_parRenameStatus m_rarRenameStatus
m_directRenameStatus m_deleteStatus m_markStatus m_unpackCleanedUpDisk m_healthPaused m_addUrlPaused m_fileCount m_parkedFileCount m_messageCount
m_parFull m_extraParBlocks m_fullContentHash m_filteredContentHash m_size m_successSize m_failedSize m_parSize m_parSuccessSize m_parFailedSize
m_totalArticles m_successArticles m_failedArticles m_dupeMode m_dupeScore m_dupeHint m_downloadedSize m_downloadSec m_postTotalSec m_parSec m_repairSec m_unpackSec'''.split()
TEXTS = 'm_url m_filename m_destDir m_finalDir m_queuedFilename m_name m_category m_dupeKey'.split()


def parse(fmt):
    """a printf/scanf format of conversions and literal separators"""
    out = re.findall(r'%(?:l|ll|j)?[a-zA-Z]|[^%]', fmt)
    if ''.join(out) != fmt:
        raise Inconclusive(f'format {fmt!r} not recognised')
    return out


class Disk:
    """the lines of a state file: PrintLine appends the values it formats, ScanLine and ReadLine deliver the values of the next line.  Trusted:
    vsnprintf prints what vsscanf reads back (decimal numbers of 32 and 64 bits) and texts without line breaks pass unchanged."""

    def __init__(self, c):
        self.c, ex = c, c.ex
        self.lines = []
        self.pos = c.buffer('read position', 8, 64)
        self.wpos = c.buffer('write position', 8, 64)
        ex.store(c.st, Ptr(self.pos, 0), 0, 'i64', 8)
        ex.store(c.st, Ptr(self.wpos, 0), 0, 'i64', 8)
        self.ghost = {}
        c._ids, c._lits = {}, {'': 0}
        c.contract('StateDiskFile::PrintLine', self.print)
        c.contract('StateDiskFile::ReadLine', self.read)
        c.contract('StateDiskFile::ScanLine', self.scan)
        c.contract('CString::operator=', self.assign, 'CString::operator=(const char*)')
        c.contract('strlen', self.strlen)
        c.contract('Util::EmptyStr', lambda ex, st, a, i: And(*[Implies(B(g), True if r.kind == 'null' else self.text(Ptr([(True, r, o, s)]), st) == 0)
                                                                for g, r, o, s in int_to_ptr(a[0]).alts]))
        for f in ('error', 'warn', 'info', 'detail', 'debug'):
            c.contract(f, lambda ex, st, a, i: None)

    def cell(self, p, st):
        """ghost identity of the text a pointer leads to (state of the buffer)"""
        key = (p.id,)
        if key not in self.ghost:
            self.ghost[key] = self.c.buffer(f'text of {p.name}', 8, 64)
        return self.ghost[key]

    def text(self, p, st):
        r = None
        for g, reg, off, s in reversed(int_to_ptr(p).alts):
            if reg.kind == 'null':
                continue
            t = const_str(self.c.ex, st, Ptr([(True, reg, off, None)])) if reg.kind != 'buf' else None
            if t is not None:
                v = I64(self.c._lits.setdefault(t.decode('latin-1'), len(self.c._lits)))
            else:
                v = bv(self.c.ex.load(st, Ptr(self.cell(reg, st), 0), 'i64', 8), 64)
            r = v if r is None else z3.If(B(g), v, r)
        if r is None:
            raise Inconclusive('text of a null pointer')
        return r

    def concrete(self, st, cell):
        v = self.c.ex.load(st, Ptr(cell, 0), 'i64', 8)
        if not isinstance(v, int):
            v = z3.simplify(bv(v, 64))
            if not z3.is_bv_value(v):
                raise Inconclusive('number of lines differs between paths')
            v = v.as_long()
        return v

    def emit(self, st, line):
        n = self.concrete(st, self.wpos)
        self.c.ex.store(st, Ptr(self.wpos, 0), n + 1, 'i64', 8)
        if n < len(self.lines):
            raise Inconclusive('a line is written on several paths')
        self.lines.append(line)

    def take(self, st):
        n = self.concrete(st, self.pos)
        self.c.ex.store(st, Ptr(self.pos, 0), n + 1, 'i64', 8)
        if n >= len(self.lines):
            return None
        return self.lines[n]

    def print(self, ex, st, a, i):
        fmt = const_str(ex, st, a[1])
        if fmt is None:
            raise Inconclusive('format of PrintLine')
        out, args = [], list(a[2:])
        for p in parse(fmt.decode()):
            if p[0] != '%':
                out.append(p)
            elif p == '%s':
                v = args.pop(0)
                ex.oblige(st, 'pre', 'text of a printed line is not null', Not(Or(*[B(g) for g, r, o, s in int_to_ptr(v).alts if r.kind == 'null'])), where='PrintLine')
                out.append(('s', self.text(v, st)))
            elif p[-1] in 'iud':
                v, w = args.pop(0), 64 if 'l' in p or 'j' in p else 32
                v = bv(v, w)
                out.append(('n', v if w == 64 else z3.SignExt(32, v) if p[-1] in 'id' else z3.ZeroExt(32, v)))
            else:
                raise Inconclusive(f'conversion {p}')
        self.emit(st, out)
        return 0

    def read(self, ex, st, a, i):
        line = self.take(st)
        if line is None:
            return Ptr(NULL, 0)
        if len(line) != 1 or line[0][0] != 's':
            raise Inconclusive('a line of several fields is read as a text')
        for g, r, o, s in int_to_ptr(a[1]).alts:
            ex.store(st, Ptr(self.cell(r, st), 0), line[0][1], 'i64', 8)
        first = ex.fresh('first character', 8)
        ex.assume(None, (first == 0) == (line[0][1] == 0))
        ex.store(st, a[1], first, 'i8', 1)
        return a[1]

    def scan(self, ex, st, a, i):
        line = self.take(st)
        if line is None:
            return 0
        fmt = const_str(ex, st, a[1])
        if fmt is None:
            raise Inconclusive('format of ScanLine')
        n = 0
        for p, q in zip(parse(fmt.decode()), line + [None] * 40):
            if p[0] != '%':
                if p != q:
                    return n
                continue
            if p[-1] not in 'iud':
                raise Inconclusive(f'conversion {p}')
            if q is None or q[0] != 'n':
                return n
            w = 64 if 'l' in p or 'j' in p else 32
            v = z3.simplify(z3.Extract(w - 1, 0, q[1]))
            ex.store(st, a[2 + n], v.as_long() if z3.is_bv_value(v) else v, f'i{w}', w // 8)
            n += 1
        return n

    def assign(self, ex, st, a, i):
        src = int_to_ptr(a[1])
        r = self.c.buffer(f'string{len(self.ghost)}', None)
        null = Or(*[B(g) for g, x, o, s in src.alts if x.kind == 'null'])
        if not all(x.kind == 'null' for g, x, o, s in src.alts):
            ex.store(st, Ptr(self.cell(r, st), 0), self.text(src, st), 'i64', 8)
        alts = [(Not(null), r, 0, None)] + ([(null, NULL, 0, None)] if null is not False else [])
        ex.store(st, a[0], Ptr(alts), 'ptr', 8)
        return a[0]

    def strlen(self, ex, st, a, i):
        n = ex.fresh('length', 64)
        ex.assume(None, (n == 0) == (self.text(a[0], st) == 0))
        return n


def version(c, fn):
    """the format version written: the constant in the construction of the state file"""
    vs = [t[5]['args'][2][0] for b in c.prog.find(fn).blocks.values() for t in b if t[0] in ('call', 'invoke') and 'StateFileC' in str(t)]
    if not vs or any(v[0] != 'c' for v in vs) or len({v[2] for v in vs}) != 1:
        raise Inconclusive('format version not recognised')
    return vs[0][2]


def off(c, ty, path):
    return c.prog.fieldpath(ty, path)[0]


def texts(c, d, o, names):
    ids = {}
    for t in names:
        r = c.buffer(f'{o.name}.{t}', None)
        ids[t] = c.var(f'{o.name}.{t}.text', 64)
        c.ex.store(c.st, Ptr(d.cell(r, c.st), 0), ids[t], 'i64', 8)
        o.ptr_init[off(c, o.type, t)] = Ptr(r, 0)
    return ids


def nothing(c, *types):
    for t in types:
        c.deque(t, lambda ex, st, q: 0, lambda ex, st, q, i: (_ for _ in ()).throw(Inconclusive('element of an empty list')))
        c.ex.patterns.append((re.compile(rf'^std::deque<.*{t.split()[-1]}.*>::clear\('), lambda ex, st, a, i: None))


def nzb_world(c, d):
    def emplace(ex, st, a, i):
        po = c.obj('PostInfo', 'restored post info')
        ex.store(st, Ptr([(g, r, addoff(o, off(c, 'NzbInfo', 'm_postInfo')), None) for g, r, o, s in int_to_ptr(a[0]).alts]), Ptr(po, 0), 'ptr', 8)
        c.post2 = po
    c.contract('NzbInfo::EnterPostProcess', emplace)
    c.contract('DiskState::SaveServerStats', lambda ex, st, a, i: d.emit(st, [('stats', a[1])]))

    def load(ex, st, a, i):
        line = d.take(st)
        if line is None or line[0][0] != 'stats':
            return False
        c.loaded_stats.append(a[1])
        return True
    c.loaded_stats = []
    c.contract('DiskState::LoadServerStats', load)
    c.contract('ServerStatList::ListOp', lambda ex, st, a, i: None)
    for f in ('NzbInfo::MakeNiceUrlName', 'NzbInfo::MakeNiceNzbName'):
        c.contract(f, lambda ex, st, a, i: d.assign(ex, st, [a[0], a[1]], i), f + ' (some text)')
    c.contract('CString::~CString', lambda ex, st, a, i: None)


@P.unit('group', fn='DiskState::LoadNzbInfo')
def group(c):
    d = Disk(c)
    nzb_world(c, d)
    nothing(c, 'CompletedFile', 'NzbParameter', 'ScriptStatus', 'unique_ptr FileInfo')
    a, b = c.obj('NzbInfo', 'saved'), c.obj('NzbInfo', 'restored')
    ids = texts(c, d, a, TEXTS)
    c.assume(ids['m_name'] != 0)
    po = c.obj('PostInfo', 'post info')
    has = c.ex.freshb('in post-processing')
    a.ptr_init[off(c, 'NzbInfo', 'm_postInfo')] = Ptr([(has, po, 0, None), (Not(has), NULL, 0, None)])
    b.ptr_init[off(c, 'NzbInfo', 'm_postInfo')] = Ptr(NULL, 0)
    for t in TEXTS:
        b.ptr_init[off(c, 'NzbInfo', t)] = Ptr(NULL, 0)
    g = lambda k, o=a, st=None: c.get(o, k, st)
    stage = bv(g('m_stage', po), 32)
    c.assume(stage >= 0, stage <= 100)
    for t in ('m_minTime', 'm_maxTime'):
        v = bv(g(t), 64)
        c.assume(v == z3.SignExt(32, z3.Extract(31, 0, v)))
    disk = c.obj('DiskState', 'disk')
    f = c.obj('StateDiskFile', 'file')
    st, _ = c.run('DiskState::SaveNzbInfo', [Ptr(disk, 0), Ptr(a, 0), Ptr(f, 0)])
    want = {k: bv(g(k, st=st), 8 * c.prog.fieldpath('NzbInfo', k)[1]) for k in PERSISTED + ['m_minTime', 'm_maxTime', 'm_urlStatus']}
    st, ok = c.run('DiskState::LoadNzbInfo', [Ptr(disk, 0), Ptr(b, 0), Ptr(NULL, 0), Ptr(f, 0), version(c, 'DiskState::SaveDownloadQueue')], st=st)
    c.ensure(st, 'everything that was saved can be loaded', c.truth(ok))
    for k in PERSISTED + ['m_minTime', 'm_maxTime']:
        w = 8 * c.prog.fieldpath('NzbInfo', k)[1]
        x = bv(g(k, b, st), w)
        if w == 8:
            c.ensure(st, f'{k[2:]} is restored', (x & 1) == (want[k] & 1))
        else:
            c.ensure(st, f'{k[2:]} is restored', x == want[k])
    kind, url = want['m_kind'], want['m_urlStatus']
    c.ensure(st, 'urlStatus is restored', Implies(Or(kind == 0, url >= 3), bv(g('m_urlStatus', b, st), 32) == url))
    for t in TEXTS:
        c.ensure(st, f'{t[2:]} is restored', d.text(c.ex.load(st, Ptr(b, off(c, 'NzbInfo', t)), 'ptr', 8), st) == ids[t])
    pi = c.ex.load(st, Ptr(b, off(c, 'NzbInfo', 'm_postInfo')), 'ptr', 8)
    there = Or(*[B(gg) for gg, r, o, s in pi.alts if r.kind != 'null'])
    c.ensure(st, 'a download in post-processing is restored in post-processing', there == B(has))
    if hasattr(c, 'post2'):
        for k, w in (('m_stage', 32), ('m_forceParFull', 8), ('m_forceRepair', 8)):
            x, y = bv(g(k, c.post2, st), w), bv(g(k, po, st), w)
            c.ensure(st, f'post-processing {k[2:]} is restored', Implies(B(has), x == y if w == 32 else (x & 1) == (y & 1)))
    c.ensure(st, 'every line is consumed', d.concrete(st, d.pos) == len(d.lines))
    c.cover(st, 'restored', c.truth(ok))


def owned(c, T, lists, made):
    """sequences of owning pointers with given elements: lists[container path offset key] -> objects; new elements are recorded in made"""
    key = lambda p: next((r, o) for g, r, o, s in int_to_ptr(p).alts if r.kind != 'null')

    def content(p):
        r, o = key(p)
        return lists.get((r.id, o if isinstance(o, int) else z3.simplify(bv(o, 64)).as_long()), [])

    def element(ex, st, p, k):
        k = z3.simplify(bv(k, 64))
        l = content(p)
        if not z3.is_bv_value(k):
            raise Inconclusive('element of a list')
        ex.oblige(st, 'pre', 'element exists', k.as_long() < len(l), where='std::vector/deque')
        if k.as_long() >= len(l):
            raise Inconclusive('element of a list')
        return Ptr(l[k.as_long()], 0)
    c.deque(f'unique_ptr {T}', lambda ex, st, p: len(content(p)), element)

    def make(ex, st, a, i):
        o = c.obj(T, f'new {T} {len(made)}')
        for t in strings_of(c, T):
            o.ptr_init[t] = Ptr(NULL, 0)
        made.append(o)
        ex.store(st, a[0], Ptr(o, 0), 'ptr', 8)
    c.contract(f'std::make_unique<{T}>', make)

    def add(ex, st, a, i):
        l = int_to_ptr(ex.load(st, int_to_ptr(a[1]), 'ptr', 8))
        r, o = key(a[0])
        lists.setdefault((r.id, o if isinstance(o, int) else z3.simplify(bv(o, 64)).as_long()), []).append(key(l)[0])
    e = re.escape(f'std::unique_ptr<{T}, std::default_delete<{T}>>')
    for pat, h in ((rf'^UniqueDeque<{T}>::Add\(', add), (rf'^std::(?:vector|deque)<{e}.*>::(?:push_back|emplace_back)\b', add), (rf'^std::(?:vector|deque)<{e}.*>::clear\(', lambda ex, st, a, i: lists.pop((key(a[0])[0].id, key(a[0])[1]), None) and None),
                   (rf'^{e}::~unique_ptr', lambda ex, st, a, i: None)):
        c.ex.patterns.append((re.compile(pat), h))
    # a moved owner leads to the same object
    c.ex.patterns.append((re.compile(rf'^{e}::unique_ptr\({e}&&\)'), lambda ex, st, a, i: ex.store(st, a[0], ex.load(st, int_to_ptr(a[1]), 'ptr', 8), 'ptr', 8)))


def vector_memory(c, obj, member, elems, capacity=8):
    """std::vector of owning pointers as memory: the inline code of the standard library runs on it, growth is trusted"""
    arr = c.ex.new_region(f'{obj.name}.{member}', 8 * capacity, [])
    o = off(c, obj.type, member)
    for k, e in enumerate(elems):
        arr.ptr_init[8 * k] = Ptr(e, 0)
    for k, n in enumerate((0, 8 * len(elems), 8 * capacity)):
        obj.ptr_init[o + 8 * k] = Ptr(arr, n)
    return arr


def vector_growth(c, T, made):
    e = re.escape(f'std::unique_ptr<{T}, std::default_delete<{T}>>')

    def make(ex, st, a, i):
        o = c.obj(T, f'new {T} {len(made)}')
        for t in strings_of(c, T):
            o.ptr_init[t] = Ptr(NULL, 0)
        made.append(o)
        ex.store(st, a[0], Ptr(o, 0), 'ptr', 8)
    c.contract(f'std::make_unique<{T}>', make)

    def push(ex, st, a, i):
        end = Ptr([(g, r, addoff(o, 8), None) for g, r, o, s in int_to_ptr(a[0]).alts])
        e = int_to_ptr(ex.load(st, end, 'ptr', 8))
        ex.store(st, e, ex.load(st, int_to_ptr(a[1]), 'ptr', 8), 'ptr', 8)
        ex.store(st, end, Ptr([(g, r, addoff(o, 8), None) for g, r, o, s in e.alts]), 'ptr', 8)
    for pat, h in ((rf'^std::vector<{e}.*>::(?:push_back|emplace_back)\b', push), (rf'^{e}::~unique_ptr', lambda ex, st, a, i: None)):
        c.ex.patterns.append((re.compile(pat), h))


def vector_content(c, st, obj, member):
    o = off(c, obj.type, member)
    (_, r, b, _), = int_to_ptr(c.ex.load(st, Ptr(obj, o), 'ptr', 8)).alts
    (_, r2, e, _), = int_to_ptr(c.ex.load(st, Ptr(obj, o + 8), 'ptr', 8)).alts
    return [int_to_ptr(c.ex.load(st, Ptr(r, k), 'ptr', 8)).alts[0][1] for k in range(b, e, 8)]


def strings_of(c, T):
    return {'ArticleInfo': lambda: [off(c, T, 'm_messageId'), off(c, T, 'm_resultFilename')],
            'FileInfo': lambda: [off(c, T, t) for t in ('m_subject', 'm_filename', 'm_origname', 'm_hash16k', 'm_parSetId')]}.get(T, lambda: [])()


def numbers(c, a, b, st, names, ty, what, want=None):
    for k in names:
        w = 8 * c.prog.fieldpath(ty, k)[1]
        x, y = bv(c.get(b, k, st), w), bv(c.get(a, k, st), w)
        c.ensure(st, f'{what}{k[2:]} is restored', x == y if w > 8 else (x & 1) == (y & 1))


def strings(c, d, a_ids, b, st, ty, what):
    for t, i in a_ids.items():
        p = int_to_ptr(c.ex.load(st, Ptr(b, off(c, ty, t)), 'ptr', 8))
        there = [x for x in p.alts if x[1].kind != 'null']
        absent = Or(*[B(x[0]) for x in p.alts if x[1].kind == 'null'])
        got = I64(0) if not there else z3.If(absent, I64(0), d.text(Ptr(there), st))
        c.ensure(st, f'{what}{t[2:]} is restored', got == i)


@P.unit('group files (lists of 3)', fn='DiskState::LoadNzbInfo')
def groupfiles(c):
    d = Disk(c)
    nzb_world(c, d)
    nothing(c, 'CompletedFile', 'NzbParameter', 'ScriptStatus')
    a, b = c.obj('NzbInfo', 'saved'), c.obj('NzbInfo', 'restored')
    texts(c, d, a, TEXTS)
    for o in (a, b):
        o.ptr_init[off(c, 'NzbInfo', 'm_postInfo')] = Ptr(NULL, 0)
    for t in TEXTS:
        b.ptr_init[off(c, 'NzbInfo', t)] = Ptr(NULL, 0)
    lists, made = {}, []
    owned(c, 'FileInfo', lists, made)
    files = [c.obj('FileInfo', f'file {k}') for k in range(3)]
    fl = off(c, 'NzbInfo', 'm_fileList')
    lists[(a.id, fl)] = files
    for k, f in enumerate(files):
        c.put(f, 'm_deleted', int(k == 1))
    disk, f = c.obj('DiskState', 'disk'), c.obj('StateDiskFile', 'file')
    st, _ = c.run('DiskState::SaveNzbInfo', [Ptr(disk, 0), Ptr(a, 0), Ptr(f, 0)])
    st, ok = c.run('DiskState::LoadNzbInfo', [Ptr(disk, 0), Ptr(b, 0), Ptr(NULL, 0), Ptr(f, 0), version(c, 'DiskState::SaveDownloadQueue')], st=st)
    c.ensure(st, 'everything that was saved can be loaded', c.truth(ok))
    got = lists.get((b.id, fl), [])
    c.ensure(st, 'the files that are not deleted are restored, in order', len(got) == 2)
    for x, y in zip([files[0], files[2]], got):
        numbers(c, x, y, st, ('m_id', 'm_paused', 'm_extraPriority'), 'FileInfo', 'file: ')
        p = int_to_ptr(c.ex.load(st, Ptr(y, off(c, 'FileInfo', 'm_nzbInfo')), 'ptr', 8))
        c.ensure(st, 'restored file belongs to the restored group', Or(*[B(g) for g, r, o, s in p.alts if r.id == b.id and o == 0]))


def file_objects(c, d, narticles):
    a, b = c.obj('FileInfo', 'saved'), c.obj('FileInfo', 'restored')
    ids = texts(c, d, a, ('m_subject', 'm_filename', 'm_origname', 'm_hash16k', 'm_parSetId'))
    for t in strings_of(c, 'FileInfo'):
        b.ptr_init[t] = Ptr(NULL, 0)
    made = []
    vector_growth(c, 'ArticleInfo', made)
    arts, tids = [], []
    for k in range(narticles):
        x = c.obj('ArticleInfo', f'article {k}')
        x.ptr_init[off(c, 'ArticleInfo', 'm_resultFilename')] = Ptr(NULL, 0)
        tids.append(texts(c, d, x, ('m_messageId',)))
        arts.append(x)
    vector_memory(c, a, 'm_articles', arts)
    vector_memory(c, b, 'm_articles', [])
    return a, b, ids, arts, tids


@P.unit('file (lists of 2)', fn='DiskState::LoadFileInfo')
def fileinfo(c):
    d = Disk(c)
    a, b, ids, arts, tids = file_objects(c, d, 2)
    # two newsgroups
    gv = c.ex.new_region('groups', 16, [])
    gids = []
    for k in range(2):
        r = c.buffer(f'group {k}', None)
        gids.append(c.var(f'group {k} text', 64))
        c.ex.store(c.st, Ptr(d.cell(r, c.st), 0), gids[-1], 'i64', 8)
        gv.ptr_init[8 * k] = Ptr(r, 0)
    go = off(c, 'FileInfo', 'm_groups')
    for k, o in enumerate((0, 16, 16)):
        a.ptr_init[go + 8 * k] = Ptr(gv, o)
    restored = []
    c.contract('CString::CString', lambda ex, st, x, i: d.assign(ex, st, x, i), 'CString::CString(const char*)')
    c.contract('CString::~CString', lambda ex, st, x, i: None)

    def push(ex, st, x, i):
        restored.append((int_to_ptr(x[0]), ex.load(st, int_to_ptr(x[1]), 'ptr', 8)))
    c.ex.patterns.append((re.compile(r'^std::vector<CString, std::allocator<CString>>::(?:push_back|emplace_back)\b'), push))
    v = bv(c.get(a, 'm_time'), 64)
    c.assume(v == z3.SignExt(32, z3.Extract(31, 0, v)))
    disk, f = c.obj('DiskState', 'disk'), c.obj('StateDiskFile', 'file')
    st, _ = c.run('DiskState::SaveFileInfo', [Ptr(disk, 0), Ptr(a, 0), Ptr(f, 0), True])
    st, ok = c.run('DiskState::LoadFileInfo', [Ptr(disk, 0), Ptr(b, 0), Ptr(f, 0), version(c, 'DiskState::SaveFile'), True, True], st=st)
    c.ensure(st, 'everything that was saved can be loaded', c.truth(ok))
    numbers(c, a, b, st, ('m_filenameConfirmed', 'm_time', 'm_size', 'm_missedSize', 'm_parFile', 'm_totalArticles', 'm_missedArticles'), 'FileInfo', '')
    c.ensure(st, 'remaining size is the size without the missed articles', bv(c.get(b, 'm_remainingSize', st), 64) == bv(c.get(a, 'm_size', st), 64) - bv(c.get(a, 'm_missedSize', st), 64))
    strings(c, d, {k: ids[k] for k in ('m_subject', 'm_filename', 'm_origname')}, b, st, 'FileInfo', '')
    c.ensure(st, 'newsgroups are restored, in order', And(len(restored) == 2, *[d.text(x[1], st) == y for x, y in zip(restored, gids)]))
    got = vector_content(c, st, b, 'm_articles')
    c.ensure(st, 'articles are restored, in order', len(got) == 2)
    for x, y, t in zip(arts, got, tids):
        numbers(c, x, y, st, ('m_partNumber', 'm_size'), 'ArticleInfo', 'article: ')
        strings(c, d, t, y, st, 'ArticleInfo', 'article: ')
    c.ensure(st, 'every line is consumed', d.concrete(st, d.pos) == len(d.lines))


for HAVE in (True, False):
    @P.unit('partial file, articles ' + ('loaded' if HAVE else 'not loaded') + ' (lists of 3)', fn='DiskState::LoadFileState')
    def filestate(c, have=HAVE):
        d = Disk(c)
        a, b, ids, arts, tids = file_objects(c, d, 3)
        nzb_world(c, d)
        c.contract('StateDiskFile::Close', lambda ex, st, x, i: None)
        c.contract('DiskFile::Close', lambda ex, st, x, i: True)
        opt = c.obj('Options', 'options')
        c.ex.global_region('g_Options').ptr_init[0] = Ptr(opt, 0)
        c.contract('BString<1024>::BString', lambda ex, st, x, i: None)
        c.contract('BString<1024>::operator char*', lambda ex, st, x, i: c.text('result file'))
        if have:
            own = []
            for k in range(3):
                x = c.obj('ArticleInfo', f'loaded article {k}')
                x.ptr_init[off(c, 'ArticleInfo', 'm_resultFilename')] = Ptr(NULL, 0)
                own.append(x)
            vector_memory(c, b, 'm_articles', own)
        status = [bv(c.get(x, 'm_status'), 32) for x in arts]
        for s in status:
            c.assume(s >= 0, s <= 3)
        completed = c.ex.freshb('completed')
        disk, f = c.obj('DiskState', 'disk'), c.obj('StateDiskFile', 'file')
        save = next(n for n, g in c.prog.funcs.items() if 'SaveFileStateEP8FileInfoR13' in n)
        load = next(n for n, g in c.prog.funcs.items() if 'LoadFileStateEP8FileInfo' in n and 'R13StateDiskFile' in n)
        st, _ = c.run('DiskState::SaveFileState', [Ptr(disk, 0), Ptr(a, 0), Ptr(f, 0), completed], sig=r'StateDiskFile&')
        st, ok = c.run('DiskState::LoadFileState', [Ptr(disk, 0), Ptr(b, 0), Ptr(NULL, 0), Ptr(f, 0), version(c, 'DiskState::SaveFile'), completed], st=st, sig=r'StateDiskFile&')
        c.ensure(st, 'everything that was saved can be loaded', c.truth(ok))
        numbers(c, a, b, st, ('m_remainingSize', 'm_successSize', 'm_failedSize', 'm_parFile', 'm_successArticles', 'm_failedArticles'), 'FileInfo', '')
        strings(c, d, {k: ids[k] for k in ('m_filename', 'm_hash16k', 'm_parSetId')}, b, st, 'FileInfo', '')
        got = vector_content(c, st, b, 'm_articles')
        c.ensure(st, 'articles are restored, in order', len(got) == 3)
        done = I64(0)
        for k, (x, y) in enumerate(zip(arts, got)):
            numbers(c, x, y, st, ('m_segmentOffset', 'm_segmentSize', 'm_crc'), 'ArticleInfo', 'article: ')
            s = z3.If(status[k] == 1, z3.BitVecVal(0, 32), status[k])
            s = z3.If(And(done == 2, Not(completed)), z3.BitVecVal(0, 32), s)
            c.ensure(st, f'status of article {k} is restored; an interrupted download starts again, and never are all articles done',
                     bv(c.get(y, 'm_status', st), 32) == s)
            done = z3.If(s != 0, done + 1, done)
        c.ensure(st, 'the number of completed articles is right', bv(c.get(b, 'm_completedArticles', st), 32) == z3.Extract(31, 0, done))


@P.unit('duplicate history item', fn='DiskState::LoadDupInfo')
def dup(c):
    d = Disk(c)
    a, b = c.obj('DupInfo', 'saved'), c.obj('DupInfo', 'restored')
    ids = texts(c, d, a, ('m_name', 'm_dupeKey'))
    for t in ('m_name', 'm_dupeKey'):
        b.ptr_init[off(c, 'DupInfo', t)] = Ptr(NULL, 0)
    disk, f = c.obj('DiskState', 'disk'), c.obj('StateDiskFile', 'file')
    st, _ = c.run('DiskState::SaveDupInfo', [Ptr(disk, 0), Ptr(a, 0), Ptr(f, 0)])
    st, ok = c.run('DiskState::LoadDupInfo', [Ptr(disk, 0), Ptr(b, 0), Ptr(f, 0), version(c, 'DiskState::SaveDownloadQueue')], st=st)
    c.ensure(st, 'everything that was saved can be loaded', c.truth(ok))
    numbers(c, a, b, st, ('m_status', 'm_size', 'm_fullContentHash', 'm_filteredContentHash', 'm_dupeScore', 'm_dupeMode'), 'DupInfo', '')
    strings(c, d, ids, b, st, 'DupInfo', '')


@P.unit('line', fn='StateDiskFile::PrintLine')
def line(c):
    """one printed line: exactly the formatted text with its line breaks replaced, terminated by one line break, nothing outside the buffers touched"""
    import models
    src = c.cstr('formatted text', maxlen=(1 << 30))
    n = z3.Extract(31, 0, src.len)
    text = c.arr(src)

    def fmt(ex, st, a, i):
        dst, size = int_to_ptr(a[0]), bv(a[1], 64)
        if any(r.kind != 'null' for g, r, o, s in dst.alts):
            m = z3.If(z3.ULT(src.len, size), src.len, size - 1)
            ex.oblige(st, 'pre', 'the output buffer is not empty', size != 0, where='vsnprintf')
            models.memcpy(ex, st, dst, Ptr(src, 0), m)
            ex.store(st, Ptr([(g, r, addoff(o, m), s) for g, r, o, s in dst.alts]), 0, 'i8', 1)
        return n
    c.contract('vsnprintf', fmt)
    for f in ('llvm.va_start', 'llvm.va_copy', 'llvm.va_end'):
        c.contract(f, lambda ex, st, a, i: None)
    seen = c.buffer('number of writes', 8, 64)
    c.ex.store(c.st, Ptr(seen, 0), 0, 'i64', 8)
    brk = z3.BitVecVal(10, 8)

    def write(ex, st, a, i):
        ex.oblige(st, 'post', 'the length written is the length of the text and the line end', bv(a[2], 64) == src.len + 1, where='Write')
        (_, r, o, _), = int_to_ptr(a[1]).alts
        ex.oblige(st, 'post', 'the line starts at the beginning of the text', z3.simplify(bv(o, 64)) == 0, where='Write')
        now = ex.seg_array(st, r, r.segs[0])
        k = c.ex.fresh('position', 64)
        ex.oblige(st, 'post', 'every character is that of the text, line breaks replaced', Implies(z3.ULT(k, src.len), z3.Select(now, k) ==
                                                                   z3.If(z3.Select(text, k) == brk, z3.BitVecVal(32, 8), z3.Select(text, k))), where='Write')
        ex.oblige(st, 'post', 'a line break ends the line', z3.Select(now, src.len) == brk, where='Write')
        ex.store(st, Ptr(seen, 0), 1, 'i64', 8)
        return a[2]
    c.contract('DiskFile::Write', write)
    c.contract('free', lambda ex, st, a, i: None)

    def inv(v):
        r = []
        for x in v.vars:
            if not x.ptr:
                continue
            try:
                (_, q, o, _), = int_to_ptr(v.cur(x)).alts
            except (Inconclusive, KeyError, ValueError):
                continue
            if q is src or q.kind != 'obj' or not q.segs:
                continue
            pos = lambda w, x=x: bv(int_to_ptr(w.cur(x)).alts[0][2], 64)
            now = lambda w, q=q: w.ex.seg_array(w.st, q, q.segs[0])
            r.append((('position', x.key), lambda w, pos=pos: z3.ULE(pos(w), src.len)))
            r.append((('done', x.key), lambda w, pos=pos, now=now: Forall(lambda k: Implies(z3.ULT(k, pos(w)), z3.Select(now(w), k) == z3.If(z3.Select(text, k) == brk, z3.BitVecVal(32, 8), z3.Select(text, k))), roots_of(now(w)) | roots_of(text))))
            r.append((('rest', x.key), lambda w, pos=pos, now=now: Forall(lambda k: Implies(And(z3.UGE(k, pos(w)), z3.ULE(k, src.len)), z3.Select(now(w), k) == z3.Select(text, k)), roots_of(now(w)) | roots_of(text))))
        return r
    c.ex.loop_inv.append(inv)
    f = c.obj('StateDiskFile', 'file')
    st, r = c.run('StateDiskFile::PrintLine', [Ptr(f, 0), c.text('%s')])
    c.ensure(st, 'one line is written', bv(c.ex.load(st, Ptr(seen, 0), 'i64', 8), 64) == 1)
