"""Server pool: who gets which connection."""
from prop import *

P = Property('P08', ['daemon/nntp/ServerPool.cpp', 'daemon/nntp/NewsServer.cpp'])
I32 = lambda x: z3.BitVecVal(x, 32)
CONNECTED = 0
PC = 'ServerPool::PooledConnection'


class Pool:
    def __init__(self, c):
        self.c, self.p = c, c.obj('ServerPool', 'pool')
        self.conns, self.servers = c.family(PC, 'connections'), c.family('NewsServer', 'servers')
        self.conns.ptr_cells[c.ex.off(PC, 'm_newsServer')] = self.servers
        self.list, self.n = c.vector(self.p, 'm_connections', self.conns)
        self.levels, self.nl = c.vector(self.p, 'm_levels', 32)
        self.now = c.var('now', 64)
        c.contract('Util::CurrentTime', lambda ex, st, a, i: self.now)
        for x in ('Guard::Guard', 'Guard::~Guard', 'warn', 'debug'):
            c.contract(x, lambda ex, st, a, i: None)

    def level(self, i, st=None):
        return z3.Select(self.c.arr(self.levels, st), i)


@P.unit('blocked', fn='ServerPool::IsServerBlocked')
def blocked(c):
    p = Pool(c)
    s = c.obj('NewsServer', 'server')
    st, r = c.run('ServerPool::IsServerBlocked', [Ptr(p.p, 0), Ptr(s, 0)])
    t, d = bv(c.get(s, 'm_blockTime'), 64), z3.SignExt(32, bv(c.get(p.p, 'm_retryInterval'), 32))
    c.assume(t >= 0, t < (1 << 40), d >= 0)
    c.ensure(st, 'blocked exactly during the retry interval after the failure', B(r) == And(t != 0, t <= p.now, p.now < t + d))


@P.unit('block', fn='ServerPool::BlockServer')
def block(c):
    p = Pool(c)
    s = c.obj('NewsServer', 'server')
    c.contract('CString::operator char*', lambda ex, st, a, i: NULLPTR)
    st, r = c.run('ServerPool::BlockServer', [Ptr(p.p, 0), Ptr(s, 0)])
    c.ensure(st, 'the block starts now', bv(c.get(s, 'm_blockTime', st), 64) == p.now)


@P.unit('return', fn='ServerPool::FreeConnection')
def free(c):
    p = Pool(c)
    k, s = c.var('connection', 64), c.var('server', 64)
    e = p.conns.at(k)
    g = lambda x, st=None: c.get(e, x, st)
    off = c.ex.off(PC, 'm_newsServer')
    c.assume(k != 0, s != 0, z3.Select(c.ex.fam_cell(c.st, p.conns, off, 8), k) == s)
    sv = p.servers.at(s)
    active, nl = c.truth(c.get(sv, 'm_active')), bv(c.get(sv, 'm_normLevel'), 32)
    c.assume(nl >= -1, Implies(And(active, nl >= 0), z3.ULT(z3.SignExt(32, nl), p.nl)), c.truth(g('m_inUse')))
    used = c.ex.freshb('used')
    st, r = c.run('ServerPool::FreeConnection', [Ptr(p.p, 0), Ptr(e, 0), used])
    c.ensure(st, 'the connection is free again', Not(c.truth(g('m_inUse', st))))
    c.ensure(st, 'time of last use', bv(g('m_freeTime', st), 64) == z3.If(B(used), p.now, bv(g('m_freeTime'), 64)))
    i = c.var('level', 64)
    c.ensure(st, 'counted as free on the level of its server, other levels unchanged', Implies(z3.ULT(i, p.nl), p.level(i, st) == p.level(i) + z3.If(And(active, i == z3.SignExt(32, nl)), I32(1), I32(0))))


@P.unit('hand-out', fn='ServerPool::LockedGetConnection')
def get(c):
    p = Pool(c)
    ex, Z = c.ex, z3.BitVecVal(0, 64)
    sel = z3.Select
    want = c.var('want', 64)
    ign = ex.new_region('ignore', 24, [])
    lst, ni = c.vector(ign, '', p.servers, 'ignored')
    hasign = ex.freshb('has_ignore_list')
    level = c.var('requested_level', 32)
    cand = c.local_vector('ServerPool::PooledConnection*', p.conns, 'candidates')
    L, I = c.arr(p.list), c.arr(lst)
    srv = ex.fam_cell(c.st, p.conns, ex.off(PC, 'm_newsServer'), 8)
    status = lambda e: bv(c.get(p.conns.at(e), 'm_status'), 32)
    S = lambda s, f, w=32: bv(c.get(p.servers.at(s), f), w)
    inuse = lambda e, st=None: c.truth(c.get(p.conns.at(e), 'm_inUse', st))
    c.assume(level >= 0, Forall(lambda k: Implies(z3.ULT(k, p.n), sel(L, k) != 0), roots_of(L)), Forall(lambda k: Implies(z3.ULT(k, ni), sel(I, k) != 0), roots_of(I)),
             Forall(lambda e: sel(srv, e) != 0, roots_of(srv)))
    # an arbitrary ignored server: what is shown for it holds for each of them
    j0 = c.var('some_ignored', 64)
    c.assume(z3.ULT(j0, ni))
    x = sel(I, j0)
    group = lambda a, b: And(S(a, 'm_group') > 0, S(a, 'm_group') == S(b, 'm_group'))
    ignored = lambda s: And(hasign, want == 0, Or(s == x, And(group(x, s), S(x, 'm_normLevel') == S(s, 'm_normLevel'))))

    def suitable(e):
        s = sel(srv, e)
        return And(e != 0, Not(inuse(e)), c.truth(c.get(p.servers.at(s), 'm_active')), S(s, 'm_normLevel') == level,
                   Or(want == 0, s == want, group(want, s)), Not(ignored(s)))

    # an arbitrary connection of the pool which is suitable whatever is ignored
    i0 = c.var('some_connection', 64)
    c.assume(z3.ULT(i0, p.n))
    bt = lambda st=None: ex.fam_cell(st or c.st, p.servers, ex.off('NewsServer', 'm_blockTime'), 8)
    retry = z3.SignExt(32, bv(c.get(p.p, 'm_retryInterval'), 32))
    c.assume(retry >= 0, p.now >= 0, p.now < (1 << 40), Forall(lambda s: And(sel(bt(), s) >= 0, sel(bt(), s) < (1 << 40)), roots_of(bt())))

    def good(e):
        t = sel(bt(), sel(srv, e))
        return And(suitable(e), Or(Not(hasign), want != 0), Or(status(e) == CONNECTED, Not(And(t != 0, t <= p.now, p.now < t + retry))))

    def inv(v):
        r = []
        r.append((('blocks only lifted',), lambda w: Forall(lambda s: Or(sel(bt(w.st), s) == sel(bt(), s), sel(bt(w.st), s) == 0), roots_of(bt(w.st)))))
        for q, cur, ent in v.ptrs(cand):
            off = lambda w, q=q: bv(int_to_ptr(w.cur(q)).alts[0][2], 64)
            r.append((('whole', q.key), lambda w, off=off: And(off(w) & 7 == 0, z3.ULE(off(w), 1 << 35))))
            r.append((('suitable', q.key), lambda w, off=off: Forall(lambda k: Implies(z3.ULT(k, z3.LShR(off(w), 3)), suitable(sel(c.arr(cand, w.st), k))), roots_of(c.arr(cand, w.st)))))
            for q2, c2, e2 in v.ptrs(p.list):
                pos = lambda w, q2=q2: bv(int_to_ptr(w.cur(q2)).alts[0][2], 64)
                r.append((('not refused', q.key, q2.key), lambda w, off=off, pos=pos: Implies(And(good(sel(L, i0)), z3.ULT(i0 * 8, pos(w))), off(w) != 0)))
                o2 = lambda w, q2=q2: bv(int_to_ptr(w.cur(q2)).alts[0][2], 64)
                r.append((('behind', q.key, q2.key), lambda w, off=off, o2=o2: z3.ULE(off(w), o2(w))))
        for q, cur, ent in v.ptrs(p.list):
            o = lambda w, q=q: bv(int_to_ptr(w.cur(q)).alts[0][2], 64)
            r.append((('element', q.key), lambda w, o=o: And(o(w) & 7 == 0, z3.ULE(o(w), p.n * 8))))
        for q, cur, ent in v.ptrs(lst):
            o = lambda w, q=q: bv(int_to_ptr(w.cur(q)).alts[0][2], 64)
            r.append((('element', q.key), lambda w, o=o: And(o(w) & 7 == 0, z3.ULE(o(w), ni * 8))))
            r.append((('not ignored so far', q.key), lambda w, o=o: Implies(z3.ULT(j0 * 8, o(w)), Not(ignored(c.current(w))))))
        return r
    ex.loop_inv.append(inv)

    def current(w):
        """the server of the connection at hand"""
        for v in w.st.regs.values():
            if isinstance(v, Ptr):
                for alt in v.alts:
                    if isinstance(alt[1], vc.Elem) and alt[1].fam is p.servers and z3.is_select(alt[1].idx) and alt[1].idx.arg(0).eq(srv):
                        return alt[1].idx
        raise Inconclusive('no candidate at hand')
    c.current = current
    c.contract('rand', lambda ex, st, a, i: rand)
    rand = c.var('rand', 32)
    c.assume(rand >= 0)
    st, r = c.run('ServerPool::LockedGetConnection', [Ptr(p.p, 0), level, ex.fam_ptr(p.servers, want), Ptr([(Not(hasign), NULL, 0, None), (hasign, ign, 0, None)])])
    e = ex.ptr_idx(int_to_ptr(r), p.conns)
    c.ensure(st, 'the connection handed out is free, of an active server of the level, wanted and not ignored', Implies(e != 0, suitable(e)))
    c.ensure(st, 'it is marked as used', Implies(e != 0, inuse(e, st)))
    k, i = c.var('other', 64), c.var('level', 64)
    c.ensure(st, 'no other connection changes hands', Implies(And(k != 0, k != e), inuse(k, st) == inuse(k)))
    c.ensure(st, 'the count of free connections follows', Implies(z3.ULT(i, p.nl), p.level(i, st) == p.level(i) - z3.If(And(e != 0, i == z3.SignExt(32, level)), I32(1), I32(0))))
    free = And(z3.SignExt(32, level) < p.nl, p.level(z3.SignExt(32, level)) != 0)
    c.ensure(st, 'nothing is handed out on levels without free connections', Implies(Not(free), e == 0))
    c.ensure(st, 'a suitable connection is not refused', Implies(And(free, good(sel(L, i0))), e != 0))
    c.cover(st, 'handed out', e != 0)


@P.unit('levels', fn='ServerPool::NormalizeLevels')
def levels(c):
    """servers are numbered in the order of the sorted list: server k+1 stands at position k"""
    p = Pool(c)
    ex, sel = c.ex, z3.Select
    all_, n0 = c.vector(p.p, 'm_servers', p.servers)
    lst, n = c.vector(p.p, 'm_sortedServers', p.servers)
    M = z3.Array('sorted', z3.BitVecSort(64), z3.BitVecSort(64))
    fam = lambda f, w, st=None: ex.fam_cell(st or c.st, p.servers, ex.off('NewsServer', f), w)
    lv = lambda s: sel(fam('m_level', 4), s)
    norm = lambda s, st: sel(fam('m_normLevel', 4, st), s)

    def sort(ex, st, a, i):
        ex.set_seg(st, lst, lst.segs[0], M)
    c.ex.patterns.append((re.compile(r'^void std::sort<.*NewsServer'), sort))
    c.assume(n0 == n, n != 0, Forall(lambda k: Implies(z3.ULT(k, n), sel(M, k) == k + 1), roots_of(M)),
             Forall(lambda s: Implies(And(s != 0, z3.ULE(s, n)), lv(s) >= lv(z3.BitVecVal(1, 64))), roots_of(fam('m_level', 4))),
             Forall(lambda k: Implies(z3.ULT(k, n), sel(c.arr(lst), k) != 0), roots_of(c.arr(lst))))
    first = z3.BitVecVal(1, 64)
    inc = lambda s: Or(And(c.truth(c.get(p.servers.at(s), 'm_active')), bv(c.get(p.servers.at(s), 'm_maxConnections'), 32) > 0), lv(s) == lv(first))
    a, b, e, z = (c.var(x, 64) for x in ('one', 'next', 'excluded', 'last'))
    there = lambda s: And(s != 0, z3.ULE(s, n))
    roots = roots_of(fam('m_level', 4)) | roots_of(fam('m_normLevel', 4))
    c.assume(there(a), there(b), z3.ULT(a, b), inc(a), inc(b), Forall(lambda s: Implies(And(z3.ULT(a, s), z3.ULT(s, b)), Not(inc(s))), roots),
             there(e), Not(inc(e)), there(z), inc(z), Forall(lambda s: Implies(And(z3.ULT(z, s), z3.ULE(s, n)), Not(inc(s))), roots))
    mx = lambda st: bv(c.get(p.p, 'm_maxNormLevel', st), 32)
    diff = z3.If(lv(a) != lv(b), I32(1), I32(0))

    def inv(v):
        r = []
        for q, cur, ent in v.ptrs(lst):
            pos = lambda w, q=q: z3.LShR(bv(int_to_ptr(w.cur(q)).alts[0][2], 64), 3)
            r.append((('element', q.key), lambda w, q=q: And(bv(int_to_ptr(w.cur(q)).alts[0][2], 64) & 7 == 0, z3.ULE(bv(int_to_ptr(w.cur(q)).alts[0][2], 64), n * 8))))
            for x, cx, cy in v.ints(32):
                r.append((('smallest', q.key, x.key), lambda w, x=x: bv(w.cur(x), 32) == lv(first)))
                r.append((('last', q.key, x.key), lambda w, x=x, pos=pos: And(Implies(And(z3.ULE(a, pos(w)), z3.ULT(pos(w), b)), bv(w.cur(x), 32) == lv(a)), Implies(pos(w) == 0, bv(w.cur(x), 32) == lv(first)))))
            r.append((('neighbours', q.key), lambda w, pos=pos: And(
                Implies(z3.ULE(b, pos(w)), norm(b, w.st) == norm(a, w.st) + diff), Implies(And(z3.ULE(a, pos(w)), z3.ULT(pos(w), b)), mx(w.st) == norm(a, w.st)))))
            r.append((('first', q.key), lambda w, pos=pos: And(Implies(pos(w) != 0, norm(first, w.st) == 0), Implies(pos(w) == 0, mx(w.st) == 0))))
            r.append((('excluded', q.key), lambda w, pos=pos: Implies(z3.ULE(e, pos(w)), norm(e, w.st) == -1)))
            r.append((('greatest', q.key), lambda w, pos=pos: Implies(z3.ULE(z, pos(w)), mx(w.st) == norm(z, w.st))))
        return r
    ex.loop_inv.append(inv)
    st, r = c.run('ServerPool::NormalizeLevels', [Ptr(p.p, 0)])
    c.ensure(st, 'the first server has level 0', norm(first, st) == 0)
    c.ensure(st, 'the next used server has the same level or, if its configured level differs, the next one', norm(b, st) == norm(a, st) + diff)
    c.ensure(st, 'unused servers have none', norm(e, st) == -1)
    c.ensure(st, 'greatest level', mx(st) == norm(z, st))
    c.cover(st, 'two levels', And(lv(a) != lv(b), z == b))


@P.unit('order', fn='ServerPool::NormalizeLevels')
def order(c):
    """the order used for sorting"""
    a, b = c.obj('NewsServer', 'one'), c.obj('NewsServer', 'other')
    la, lb = bv(c.get(a, 'm_level'), 32), bv(c.get(b, 'm_level'), 32)
    st, r = c.run('ServerPool::NormalizeLevels()::$_0::operator()', [NULLPTR, Ptr(a, 0), Ptr(b, 0)])
    c.ensure(st, 'by configured level', B(r) == (la < lb))


@P.unit('discard', fn='ServerPool::CloseUnusedConnections')
def discard(c):
    """which connections are removed from the pool"""
    p = Pool(c)
    k = c.var('connection', 64)
    srv = c.ex.fam_cell(c.st, p.conns, c.ex.off(PC, 'm_newsServer'), 8)
    c.assume(k != 0, z3.Select(srv, k) != 0)
    e, s = p.conns.at(k), p.servers.at(z3.Select(srv, k))
    box = c.buffer('element', z3.BitVecVal(8, 64), p.conns)
    c.assume(z3.Select(c.arr(box), z3.BitVecVal(0, 64)) == k)
    p.conns.ptr_fixed[0] = Ptr(c.ex.new_region('vtable', 80, []), 0)
    c.contract('Connection::Disconnect', lambda ex, st, a, i: True)
    c.contract('disconnect', lambda ex, st, a, i: True)
    vt = p.conns.ptr_fixed[0].alts[0][1]
    for o in range(0, 80, 8):
        vt.ptr_init[o] = Ptr(vc.Region('disconnect', 0, kind='func'), 0)
    st, r = c.run('ServerPool::CloseUnusedConnections()::$_0::operator()', [NULLPTR, Ptr(box, 0)])
    active, nl = c.truth(c.get(s, 'm_active')), bv(c.get(s, 'm_normLevel'), 32)
    c.ensure(st, 'exactly unused connections of servers no longer used', B(r) == And(Not(c.truth(c.get(e, 'm_inUse'))), Or(nl == -1, Not(active))))


P.native('pool.cpp', ['daemon/nntp/ServerPool.cpp', 'daemon/nntp/NewsServer.cpp', 'daemon/util/NString.cpp', 'daemon/util/Thread.cpp'], always=True, seconds=8,
         label='random histories of requests, returns, blocks and configuration changes on the real pool', bound='up to 5 servers of 3 connections, 60 operations')
