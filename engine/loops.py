"""Loops: invariants are found by generate-and-check (Houdini) from templates over whatever variables the loop has
(plus candidates supplied by the specification); nothing refers to source-level local names."""
import os, time
import z3
from vc import *
import vc


DEBUG = os.environ.get('HOUDINI')


class Var:
    """a loop-modified scalar: header phi or memory cell"""
    __slots__ = ('key', 'get', 'w', 'ptr', 'label')

    def __init__(self, key, get, w, ptr, label):
        self.key, self.get, self.w, self.ptr, self.label = key, get, w, ptr, label


class View:
    def __init__(self, ex, fr, loop, st, s0, n, vars, mods):
        self.ex, self.fr, self.loop, self.st, self.s0, self.n, self.vars, self.mods = ex, fr, loop, st, s0, n, vars, mods

    def cur(self, v):
        return v.get(self.st)

    def entry(self, v):
        return v.get(self.s0)

    @property
    def fn(self):
        return base_name(self.fr.fn.dem)

    def arr(self, region, st=None, seg=0):
        return self.ex.seg_array(st or self.st, region, region.segs[seg])

    def ptrs(self, region):
        """[(var, current offset, entry offset)] of pointer variables that point into region"""
        out = []
        for v in self.vars:
            if not v.ptr:
                continue
            try:
                p, q = int_to_ptr(self.cur(v)), int_to_ptr(self.entry(v))
            except (Inconclusive, KeyError):
                continue
            if len(p.alts) == 1 and p.alts[0][1] is region and len(q.alts) == 1 and q.alts[0][1] is region:
                out.append((v, p.alts[0][2], q.alts[0][2]))
        return out

    def ints(self, w=None):
        out = []
        for v in self.vars:
            if v.ptr or not v.w or v.w == 1 or (w and v.w != w):
                continue
            try:
                a, b = self.cur(v), self.entry(v)
            except (Inconclusive, KeyError):
                continue
            if isinstance(a, (Ptr, Undef, bool)) or isinstance(b, (Ptr, Undef, bool)):
                continue
            out.append((v, a, b))
        return out

    def offsets(self, region):
        """everything that can serve as a cursor into region: (name, cur, entry) as 64-bit element offsets"""
        out = [(str(v.key), c, e) for v, c, e in self.ptrs(region)]
        for v, c, e in self.ints():
            if v.w in (32, 64):
                out.append((str(v.key), self.ex.sext(c, v.w, 64), self.ex.sext(e, v.w, 64)))
        return out


def width(ty):
    import re
    if isinstance(ty, str):
        m = re.match(r'i(\d+)$', ty)
        if m:
            return int(m.group(1))
    return None


def snapshot(ex):
    return len(ex.facts), len(ex.obls)


def restore(ex, snap):
    del ex.facts[snap[0]:]
    del ex.obls[snap[1]:]


def exec_loop(ex, fr, loop, st):
    cfg = ex.cfg
    name = base_name(fr.fn.dem)
    # 1. loops whose exits are decided by constants: run them
    if cfg.unroll is None and not cfg.spec_only:
        lim = ex.unroll_fns.get(name)
        snap = snapshot(ex)
        if lim is None:
            r = concrete(ex, fr, loop, st.copy())
            if r is not None:
                return r
            restore(ex, snap)
        else:
            return unroll(ex, fr, loop, st, lim, True)
    elif cfg.unroll is not None:
        return unroll(ex, fr, loop, st, cfg.unroll, False)
    return invariant(ex, fr, loop, st)


def body(ex, fr, loop, st):
    """one iteration from the loop header (phis already set): exits, back edges, returns"""
    outs = ex.run_region(fr, loop.header, [(None, st)], loop.blocks, loop.header)
    ex.cur = fr
    exits, backs = [], []
    for o in outs:
        if o[0] == 'br' and o[1][1] == loop.header:
            backs.append(o)
        else:
            exits.append(o)
    return exits, backs


def concrete(ex, fr, loop, st):
    res = []
    for it in range(ex.cfg.concrete_unroll):
        npc = len(st.pc)
        mark = snapshot(ex)
        exits, backs = body(ex, fr, loop, st)
        if exits and backs:
            return None
        if not backs:
            return exits
        if len(backs) > 1:
            s = None
            for (_, (pr, t), s2) in backs:
                ex.do_phis(fr, loop.header, pr, s2)
                s = s2 if s is None else ex.merge2(s, s2, None, None)[0]
            st = s
        else:
            (_, (pr, t), st) = backs[0]
            ex.do_phis(fr, loop.header, pr, st)
    return None


def unroll(ex, fr, loop, st, k, complete):
    res = []
    for it in range(k + 1):
        exits, backs = body(ex, fr, loop, st)
        res += exits
        nb = []
        for o in backs:
            if ex.feasible(o[2]):
                nb.append(o)
        if not nb:
            return res
        s = None
        for (_, (pr, t), s2) in nb:
            ex.do_phis(fr, loop.header, pr, s2)
            s = s2 if s is None else ex.merge2(s, s2, None, None)[0]
        st = s
    if complete:
        ex.oblige(st, 'assert', f'loop in {base_name(fr.fn.dem)} runs at most {k} times', False)
    else:
        ex.bounded_used = True
    return res


def havoc_like(ex, nm, vals, w):
    """fresh value with the shape of the given values"""
    vals = [v for v in vals if not isinstance(v, Undef)]
    if not vals:
        return Undef('?')
    if any(isinstance(v, Ptr) for v in vals):
        regs = []
        for v in vals:
            for (g, r, o, s) in int_to_ptr(v).alts:
                for q in regs:
                    if (sameregion(q[0], r) or (isinstance(r, Elem) and isinstance(q[0], Elem) and q[0].fam is r.fam)) and q[2] is s:
                        q[1].append(o)
                        q[3].append(r)
                        break
                else:
                    regs.append((r, [o], s, [r]))
        alts = []
        guards = []
        for k, (r, offs, s, rs) in enumerate(regs):
            if r.kind == 'null' and all(isinstance(o, int) and o == 0 for o in offs):
                off = 0
            elif all(isinstance(o, int) for o in offs) and len(set(offs)) == 1 and (r.kind == 'func' or isinstance(r, Elem)):
                off = offs[0]
            else:
                off = ex.fresh(nm + '.off')
            if isinstance(r, Elem) and not all(same(x.idx, r.idx) for x in rs):
                r = Elem(r.fam, ex.fresh(nm + '.idx'))
                if len(regs) == 1:
                    pass
            g = True if k == len(regs) - 1 else ex.freshb(nm + '.is')
            guards.append((g, r, off, s))
        neg = True
        for (g, r, off, s) in guards:
            alts.append((And(neg, g), r, off, s))
            neg = And(neg, Not(g))
        return Ptr(alts)
    v = vals[0]
    if isinstance(v, bool) or z3.is_bool(v):
        return ex.freshb(nm)
    if isinstance(v, float) or z3.is_fp(v):
        return z3.FP(f'{nm}!{uid()}', z3.Float64())
    if isinstance(v, tuple):
        raise Inconclusive('aggregate loop variable')
    if w is None:
        w = next((x.size() for x in vals if isinstance(x, z3.BitVecRef)), None)
    if w is None:
        raise Inconclusive('loop variable of unknown width')
    return ex.fresh(nm, w)


def invariant(ex, fr, loop, s0):
    key = (fr.key, fr.fn.name, loop.header)
    fkey = (fr.fn.name, loop.header)
    mods = dict(ex.mod_cache.get(key, {}))     # ('cell',rid,off,n) / ('seg',rid,start) / ('fam',rid,off,n) / ('ghost',k) -> list of sample values
    phis = ex.phis(fr, loop.header)
    phivals = {}
    surviving = None
    steps = {}
    bounds = []
    for (reg, ty, nm) in phis:
        v = s0.regs.get(reg)
        if isinstance(v, Ptr) and len(v.alts) > 1:
            s0.regs[reg] = prune(ex, s0, v)
    snap0 = snapshot(ex)
    icache = {}
    state0 = s0.copy()
    info = {'fn': base_name(fr.fn.dem), 'loop': loop.id}
    # spec_only: what the loop modifies is found in passes without invariants, before anything is proved
    discovery = ex.cfg.spec_only
    for attempt in range(ex.cfg.max_iter):
        restore(ex, snap0)
        s0 = state0
        st = s0.copy()
        n = ex.fresh('iter')
        # havoc
        for (reg, ty, nm) in phis:
            st.regs[reg] = havoc_like(ex, nm or reg, [s0.regs[reg]] + phivals.get(reg, []), width(ty))
        for m, samples in mods.items():
            havoc_mem(ex, st, s0, m, samples)
        vars = loop_vars(ex, fr, phis, mods)
        view0 = View(ex, fr, loop, s0, s0, 0, vars, mods)
        viewh = View(ex, fr, loop, st, s0, n, vars, mods)
        pc0 = s0.pcf()
        dry = discovery or ex.dry
        cands = [] if dry else candidates(viewh, steps, bounds)
        if ex.cfg.spec_only:
            cands = [c for c in cands if c[0][0] == 'spec']
        if surviving is not None:
            cands = [c for c in cands if c[0] in surviving or c[0] not in tested]
        else:
            tested = {}
        # initial check of new candidates
        live = []
        for c in cands:
            if c[0] in tested:
                if tested[c[0]]:
                    live.append(c)
                continue
            try:
                f0 = c[1](view0)
                if f0 is None:
                    tested[c[0]] = False
                    continue
                ck = None if f0 is True or isinstance(f0, Forall) else (str(c[0]), f0.get_id() if hasattr(f0, 'get_id') else f0)
                if ck in icache:
                    ok = tested[c[0]] = icache[ck][0]
                    if ok:
                        live.append(c)
                    continue
                r = 'proved' if f0 is True else ex.prove(pc0, f0, ex.cfg.prove_timeout if c[0][0] == 'spec' else 3000, split=c[0][0] == 'spec')[0]
                ok = r == 'proved'
                if ck is not None:
                    icache[ck] = (ok, f0)
                if DEBUG and not ok and c[0][0] == 'spec':
                    print('houdini initially', info['fn'], c[0], r, flush=True)
            except (Inconclusive, KeyError):
                ok = False
            tested[c[0]] = ok
            if ok:
                live.append(c)
        # assume
        forms = []
        for c in live:
            try:
                f = c[1](viewh)
            except (Inconclusive, KeyError):
                f = None
            if f is None:
                tested[c[0]] = False
                continue
            forms.append(c)
            if c[0][0] == 'spec' and not isinstance(f, Forall):
                ex.assume_pc(st, f)
            else:
                ex.assume(st, f)
        live = forms
        hst = st.copy()
        oldlog, ex.cmplog = getattr(ex, 'cmplog', None), []
        olddry, ex.dry = ex.dry, dry
        exits, backs = body(ex, fr, loop, st.copy())
        ex.dry = olddry
        log, ex.cmplog = ex.cmplog, oldlog
        # modified memory and pointer shapes
        changed = False
        for (_, (pr, t), b) in backs:
            ex.do_phis(fr, loop.header, pr, b)
            for (reg, ty, nm) in phis:
                v = b.regs[reg]
                if isinstance(v, Ptr) and len(v.alts) > 1:
                    b.regs[reg] = prune(ex, b, v)
            for (reg, ty, nm) in phis:
                if shape_new(hst.regs[reg], b.regs[reg]):
                    phivals.setdefault(reg, []).append(b.regs[reg])
                    changed = True
            changed |= find_mods(ex, hst, b, mods)
        if changed:
            if attempt > ex.cfg.max_iter - 3:
                raise Inconclusive(f'loop frame of {info["fn"]} does not stabilise')
            ex.mod_cache[key] = mods
            continue
        if dry:
            ex.mod_cache[key] = mods
            if ex.dry:
                return exits
            discovery = False
            continue
        # constant steps / bounds discovered from this run feed new candidates
        ns = find_steps(hst, backs, vars)
        nb = find_bounds(hst, log, vars, phis, mods, ex)
        if attempt_new(steps, ns) | new_bounds(bounds, nb):
            if surviving is None:
                surviving = set(c[0] for c in live)
            continue
        # preservation
        bad = []
        later = []
        for (_, (pr, t), b) in backs:
            vb = View(ex, fr, loop, b, s0, n + 1, vars, mods)
            pcb = b.pcf()
            todo = [c for c in live if c[0] not in bad]
            if not todo:
                continue
            # all at once first
            fs = {}
            for c in todo:
                try:
                    f = c[1](vb)
                except (Inconclusive, KeyError):
                    f = None
                if f is None:
                    bad.append(c[0])
                else:
                    fs[c[0]] = f
            ground = {k: B(f) for k, f in fs.items() if not isinstance(f, Forall) and f is not True and k[0] != 'spec'}
            nb0 = len(bad)
            okset = cex_filter(ex, pcb, ground, bad)
            if DEBUG:
                for k in bad[nb0:]:
                    print('houdini dropped', info['fn'], k, flush=True)
            for k, f in fs.items():
                if f is True or k in okset or k in bad:
                    continue
                later.append((k, pcb, f))
        later = [x for x in later if x[0] not in bad]
        if any(k[0] == 'spec' for k, _, _ in later):
            import solve
            def one(x):
                t0 = time.time()
                r = ex.prove(x[1], x[2], split=x[0][0] == 'spec')
                if DEBUG and (r[0] != 'proved' or time.time() - t0 > 1):
                    print('houdini', info['fn'], x[0], r[0], round(time.time() - t0, 1), flush=True)
                return r[0]
            for (k, _, _), r in zip(later, solve.fork_map(one, later)):
                if r != 'proved' and k not in bad:
                    bad.append(k)
        else:
            for (k, pcb, f) in later:
                if k in bad:
                    continue
                t0 = time.time()
                r = ex.prove(pcb, f)
                if DEBUG and (r[0] != 'proved' or time.time() - t0 > 1):
                    print('houdini', info['fn'], k, r[0], round(time.time() - t0, 1), flush=True)
                if r[0] != 'proved':
                    bad.append(k)
        if bad:
            for k in bad:
                tested[k] = False
            surviving = set(k for k, v in tested.items() if v)
            continue
        # stable
        ex.mod_cache[key] = mods
        info['invariants'] = len(live)
        info['names'] = [str(c[0]) for c in live][:60]
        ex.loops_info[fkey] = info
        for c in live:
            o = ex._obl(f'loop invariant {c[0]}', 'inv', None, True, True)
            o.status = 'proved'
            o.backend = 'z3'
            ex.obls.append(o)
        for h in ex.loop_hooks:
            h(ex, fr, loop, viewh, backs, exits)
        return exits
    raise Inconclusive(f'invariant search in {info["fn"]} did not converge')


def cex_filter(ex, pc, ground, bad, timeout=10000):
    """removes from `ground` (name -> formula) what a counterexample refutes, until the rest is proved together;
    returns the proved names; undecided ones are left to the caller"""
    import solve
    left = dict(ground)
    for _ in range(60):
        if not left:
            return set()
        q, used = solve.query(ex.facts, pc, And(list(left.values())))
        r, s, dt = solve.check(q, timeout)
        if r == z3.unsat:
            return set(left)
        if r != z3.sat:
            return set()
        m = s.model()
        drop = [k for k, f in left.items() if z3.is_false(m.eval(f, model_completion=True))]
        if not drop:
            return set()
        for k in drop:
            bad.append(k)
            del left[k]
    return set()


def prune(ex, st, p):
    """drop pointer alternatives that the path condition rules out"""
    alts = []
    for (g, r, o, s) in p.alts:
        if g is not True and ex.prove(st.pcf(), Not(g), 2000)[0] == 'proved':
            continue
        alts.append((g, r, o, s))
    if len(alts) == 1:
        alts = [(True,) + alts[0][1:]]
    return Ptr(alts) if alts else p


def attempt_new(steps, ns):
    ch = False
    for k, v in ns.items():
        if k not in steps:
            steps[k] = v
            ch = True
    return ch


def new_bounds(bounds, nb):
    ch = False
    for (w, e) in nb:
        if len(bounds) >= 14:
            break
        if not any(w == w2 and same(e, e2) for w2, e2 in bounds):
            bounds.append((w, e))
            ch = True
    return ch


def shape_new(h, b):
    """does back-edge value b have pointer alternatives not covered by header value h?"""
    if isinstance(b, Undef):
        return False
    if isinstance(b, Ptr) or isinstance(h, Ptr):
        if not isinstance(h, Ptr):
            return isinstance(b, Ptr) and not isinstance(h, Undef) or isinstance(h, Undef)
        for (g, r, o, s) in int_to_ptr(b).alts:
            ok = False
            for (g2, r2, o2, s2) in h.alts:
                if s is s2 and (sameregion(r, r2) or (isinstance(r, Elem) and isinstance(r2, Elem) and r.fam is r2.fam and not isinstance(r2.idx, int)
                                                      and (same(r.idx, r2.idx) or '.idx!' in str(r2.idx)))):
                    if same(o, o2) or not isinstance(o2, int):
                        ok = True
            if not ok:
                return True
        return False
    if isinstance(h, Undef) and not isinstance(b, Undef):
        return True
    return False


def havoc_mem(ex, st, s0, m, samples):
    if m[0] == 'cell':
        _, rid, off, n = m
        r = ex.region_of(rid)
        hint = 'ptr' if any(isinstance(v, Ptr) for v in samples) else None
        init = ex.cell(s0, r, off, n, hint)
        v = havoc_like(ex, f'{r.name}.{ex.fname(r, off)}', [init] + samples, 8 * n)
        if isinstance(v, Undef):
            v = ex.fresh('undef', 8 * n)
        ex.set_cell(st, r, off, n, v)
    elif m[0] == 'seg':
        _, rid, start = m
        r = ex.region_of(rid)
        seg = next(s for s in r.segs if s.start == start)
        a = ex.seg_array(s0, r, seg)
        ex.set_seg(st, r, seg, z3.Array(f'{r.name}.loop!{uid()}', vc.BV64, a.sort().range()))
    elif m[0] == 'fam':
        _, rid, off, n = m
        fam = ex.region_of(rid)
        a = ex.fam_cell(s0, fam, off, n)
        c = st.mem.get(rid)
        nc = vc.Content(dict(c.cells) if c else {}, {})
        nc.cells[off] = (n, z3.Array(f'{fam.name}.{off}.loop!{uid()}', vc.BV64, a.sort().range()))
        st.mem[rid] = nc
    elif m[0] == 'ghost':
        v = s0.ghost.get(m[1])
        if isinstance(v, bool) or z3.is_bool(v):
            st.ghost[m[1]] = ex.freshb(m[1])
        elif isinstance(v, int) or isinstance(v, z3.BitVecRef):
            st.ghost[m[1]] = ex.fresh(m[1], 64)
        elif z3.is_array(v):
            st.ghost[m[1]] = z3.Array(f'{m[1]}!{uid()}', v.sort().domain(), v.sort().range())
        elif z3.is_ast(v):
            st.ghost[m[1]] = z3.Const(f'{m[1]}!{uid()}', v.sort())
        else:
            raise Inconclusive(f'ghost {m[1]} (event log) modified in a loop')


def find_mods(ex, h, b, mods):
    ch = False
    for rid, c in b.mem.items():
        hc = h.mem.get(rid)
        if hc is c:
            continue
        r = ex.region_of(rid)
        if getattr(r, 'born', None) is not None:
            pass
        if hc is None and r.fresh and not visible(ex, r, h):
            continue   # allocated in the body
        isfam = isinstance(r, vc.Family)
        for off, (n, v) in c.cells.items():
            hv = hc.cells.get(off) if hc else None
            if hv is not None and hv[0] == n and same(hv[1], v):
                continue
            if isfam:
                if hv is None and same(v, ex.fam_cell(h, r, off, n)):
                    continue
                k = ('fam', rid, off, n)
                if k not in mods:
                    mods[k] = []
                    ch = True
                continue
            hint = 'ptr' if isinstance(v, Ptr) else None
            hval = ex.cell(h, r, off, n, hint)
            if same(hval, v):
                continue
            k = ('cell', rid, off, n)
            if k not in mods:
                mods[k] = [v]
                ch = True
            elif shape_new(hval, v):
                mods[k].append(v)
                ch = True
        for s, a in c.segs.items():
            seg = next(q for q in r.segs if q.start == s)
            ha = hc.segs.get(s) if hc else None
            if ha is None:
                ha = ex.seg_array(h, r, seg)
            if not ha.eq(a):
                k = ('seg', rid, s)
                if k not in mods:
                    mods[k] = []
                    ch = True
    for g, v in b.ghost.items():
        hv = h.ghost.get(g)
        if hv is v or same(hv, v):
            continue
        if ('ghost', g) not in mods:
            mods[('ghost', g)] = []
            ch = True
    return ch


def visible(ex, r, h):
    """region existed before the iteration: it is in the header state's memory or registers"""
    return r.id in ex.regions and r.id < getattr(ex, 'loop_mark', 1 << 60) and r.id in h.mem or reachable(ex, r, h)


def reachable(ex, r, h):
    for v in h.regs.values():
        if isinstance(v, Ptr) and any(a[1] is r for a in v.alts):
            return True
    for c in h.mem.values():
        for (n, v) in c.cells.values():
            if isinstance(v, Ptr) and any(a[1] is r for a in v.alts):
                return True
    for rr in ex.regions.values():
        for (n, v) in rr.cache.values():
            if isinstance(v, Ptr) and any(a[1] is r for a in v.alts):
                return True
    return False


def loop_vars(ex, fr, phis, mods):
    out = []
    for (reg, ty, nm) in phis:
        out.append(Var(('phi', reg, nm), lambda s, reg=reg: s.regs[reg], width(ty), ty == 'ptr', nm))
    for m, samples in mods.items():
        if m[0] == 'cell':
            r = ex.region_of(m[1])
            isp = any(isinstance(v, Ptr) for v in samples)
            out.append(Var(m, lambda s, r=r, m=m, isp=isp: ex.cell(s, r, m[2], m[3], 'ptr' if isp else None), 8 * m[3], isp, ex.fname(r, m[2])))
    return out


def find_steps(h, backs, vars):
    out = {}
    for v in vars:
        st = None
        ok = True
        for (_, _, b) in backs:
            try:
                x, y = v.get(h), v.get(b)
            except (Inconclusive, KeyError):
                ok = False
                break
            if v.ptr:
                x, y = int_to_ptr(x), int_to_ptr(y)
                if len(x.alts) != 1 or len(y.alts) != 1 or not sameregion(x.alts[0][1], y.alts[0][1]):
                    ok = False
                    break
                d = suboff(y.alts[0][2], x.alts[0][2])
                w = 64
            else:
                if not v.w or v.w < 8 or isinstance(x, (Ptr, Undef, bool)) or isinstance(y, (Ptr, Undef, bool)):
                    ok = False
                    break
                w = v.w
                d = fold(z3.simplify(bv(y, w) - bv(x, w)))
            if not isinstance(d, int) or (st is not None and st != d):
                ok = False
                break
            st = d
        if ok and st is not None and backs:
            out[v.key] = st
    return out


def find_bounds(h, log, vars, phis, mods, ex):
    """values compared inside the loop that do not change in it"""
    hav = set()
    for v in vars:
        try:
            x = v.get(h)
        except (Inconclusive, KeyError):
            continue
        for e in ([a[2] for a in x.alts] if isinstance(x, Ptr) else [x]):
            if isinstance(e, z3.AstRef):
                hav.add(e.get_id())
    arrs = set()
    mark = {}

    def dep(e):
        st, seen = [e], set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in hav:
                return True
            if x.num_args() == 0 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                # symbols created after the loop header are iteration-local
                nm = x.decl().name()
                k = nm.rfind('!')
                if k >= 0:
                    try:
                        if int(nm[k + 1:]) > ex.iter_mark:
                            return True
                    except ValueError:
                        pass
            st.extend(x.children())
        return False
    ex.iter_mark = min([int(str(z3.simplify(e)).rsplit('!', 1)[1]) for e in []] or [1 << 60])
    out = []
    ids = []
    for v in vars:
        try:
            x = v.get(h)
        except (Inconclusive, KeyError):
            continue
        for e in ([a[2] for a in x.alts] if isinstance(x, Ptr) else [x]):
            if z3.is_const(e) if isinstance(e, z3.AstRef) else False:
                nm = e.decl().name()
                if '!' in nm:
                    try:
                        ids.append(int(nm.rsplit('!', 1)[1]))
                    except ValueError:
                        pass
    ex.iter_mark = min(ids) - 1 if ids else 1 << 60
    for (w, a, b) in log:
        for e in (a, b):
            if isinstance(e, int):
                if w >= 32 and e != 0:
                    out.append((w, e))
            elif isinstance(e, z3.BitVecRef) and not dep(e):
                out.append((w, e))
    return out[:40]


def voff(v, val):
    """scalar of a variable: pointer offset (single target) or integer"""
    if v.ptr:
        p = int_to_ptr(val)
        if len(p.alts) != 1:
            return None
        return p.alts[0][2]
    if isinstance(val, (Undef, bool, Ptr, tuple)) or not isinstance(val, (int, z3.BitVecRef)):
        return None
    return val


def candidates(view, steps, bounds):
    """[(key, fn(view) -> formula)]"""
    out = []
    ex = view.ex
    sc = []
    for v in view.vars:
        w = 64 if v.ptr else v.w
        if not w or w == 1:
            continue
        try:
            if voff(v, v.get(view.st)) is None or voff(v, v.get(view.s0)) is None:
                continue
        except (Inconclusive, KeyError):
            continue
        sc.append((v, w))

        def C(vw, v=v):
            return voff(v, vw.cur(v)), voff(v, vw.entry(v))
        if v.key in steps:
            c = steps[v.key]

            def f(vw, v=v, w=w, c=c, C=C):
                a, b = C(vw)
                nn = bv(vw.n, 64)
                nn = z3.Extract(w - 1, 0, nn) if w < 64 else nn
                return bv(a, w) == bv(b, w) + nn * bv(c, w)
            out.append((('step', v.key), f))
        for nm, rel in (('uge', z3.UGE), ('ule', z3.ULE), ('sge', lambda a, b: a >= b), ('sle', lambda a, b: a <= b)):
            out.append(((nm, v.key, 'entry'), lambda vw, v=v, w=w, rel=rel, C=C: (lambda ab: None if ab[0] is None or ab[1] is None else rel(bv(ab[0], w), bv(ab[1], w)))(C(vw))))
        if not v.ptr:
            out.append((('nonneg', v.key), lambda vw, w=w, C=C: bv(C(vw)[0], w) >= 0))
        else:
            def insz(vw, v=v):
                p = int_to_ptr(vw.cur(v)).alts[0]
                if p[1].kind in ('null', 'func'):
                    return None
                size = p[3].size if p[3] is not None else p[1].size
                lo = p[3].start if p[3] is not None else 0
                return z3.ULE(bv(suboff(p[2], lo), 64), bv(size, 64))
            out.append((('insize', v.key), insz))
            out.append((('gem1', v.key), lambda vw, C=C: bv(C(vw)[0], 64) >= -1))
            p0 = int_to_ptr(v.get(view.s0))
            for zi, z in enumerate(view.s0.zeros.get(p0.alts[0][1].id, ())[:6]):
                out.append((('zle', v.key, zi), lambda vw, C=C, z=z: z3.ULE(bv(C(vw)[0], 64), bv(z, 64))))
                out.append((('zle1', v.key, zi), lambda vw, C=C, z=z: z3.ULE(bv(C(vw)[0], 64), bv(z, 64) + 1)))
                out.append((('zlt', v.key, zi), lambda vw, C=C, z=z: z3.ULT(bv(C(vw)[0], 64), bv(z, 64))))
        for bi, (bw, e) in enumerate(bounds):
            if bw != w:
                continue
            for nm, rel in (('ule', z3.ULE), ('sle', lambda a, b: a <= b), ('uge', z3.UGE), ('sge', lambda a, b: a >= b), ('ult', z3.ULT), ('slt', lambda a, b: a < b)):
                out.append(((nm, v.key, 'bound', bi), lambda vw, w=w, rel=rel, e=e, C=C: (lambda a: None if a is None else rel(bv(a, w), bv(e, w)))(C(vw)[0])))
    # relations between the advances of 64-bit cursors
    cur = [(v, w) for v, w in sc if w in (32, 64)]
    if len(cur) <= 9:
        for i, (v, w) in enumerate(cur):
            for j, (u, w2) in enumerate(cur):
                if i != j and w == 32 and w2 == 64 and not v.ptr:
                    def xadv(vw, v=v, u=u):
                        a, a0 = voff(v, vw.cur(v)), voff(v, vw.entry(v))
                        b, b0 = voff(u, vw.cur(u)), voff(u, vw.entry(u))
                        if None in (a, a0, b, b0):
                            return None
                        return ex.sext(a, 32, 64), ex.sext(a0, 32, 64), bv(b, 64), bv(b0, 64)
                    if v.key in steps and u.key in steps:
                        same_dir = vc.sgn(steps[v.key], 32) == vc.sgn(steps[u.key], 64)
                        out.append((('xadv', v.key, u.key), lambda vw, xadv=xadv, sd=same_dir: (lambda t: None if t is None else ((bv(t[0], 64) - bv(t[1], 64)) == (t[2] - t[3] if sd else t[3] - t[2])))(xadv(vw))))
                if i == j or w != w2:
                    continue

                def adv(vw, v=v, u=u, w=w):
                    a, a0 = voff(v, vw.cur(v)), voff(v, vw.entry(v))
                    b, b0 = voff(u, vw.cur(u)), voff(u, vw.entry(u))
                    if None in (a, a0, b, b0):
                        return None
                    return bv(a, w) - bv(a0, w), bv(b, w) - bv(b0, w)
                if w == 64:
                    out.append((('advle', v.key, u.key), lambda vw, adv=adv: (lambda t: None if t is None else z3.ULE(*t))(adv(vw))))
                if i < j:
                    out.append((('adveq', v.key, u.key), lambda vw, adv=adv: (lambda t: None if t is None else t[0] == t[1])(adv(vw))))
                    out.append((('advneg', v.key, u.key), lambda vw, adv=adv: (lambda t: None if t is None else t[0] == -t[1])(adv(vw))))
                    if w == 64 and False:
                        pass

                    def eqv(vw, v=v, u=u, w=w):
                        a, b = voff(v, vw.cur(v)), voff(u, vw.cur(u))
                        return bv(a, w) == bv(b, w)
                    if v.ptr == u.ptr:
                        out.append((('eq', v.key, u.key), eqv))
    # a character variable that mirrors the buffer at a cursor
    for v, w in sc:
        if v.ptr or w not in (8, 16, 32):
            continue
        for u, _ in sc:
            if not u.ptr:
                continue

            def mirror(vw, v=v, u=u, w=w):
                p = int_to_ptr(vw.cur(u))
                if len(p.alts) != 1 or isinstance(p.alts[0][1], vc.Elem):
                    return None
                _, r, o, s = p.alts[0]
                s = s or (r.segs[0] if len(r.segs) == 1 else None)
                if s is None or s.w != w:
                    return None
                return bv(vw.cur(v), w) == z3.Select(ex.seg_array(vw.st, r, s), bv(ex.eidx(suboff(o, s.start), w // 8), 64))
            out.append((('mirror', v.key, u.key), mirror))
    # arrays: unchanged outside the range the cursors covered
    for m in view.mods:
        if m[0] != 'seg':
            continue
        r = ex.region_of(m[1])
        seg = next(s for s in r.segs if s.start == m[2])
        for cname, c, e in view.offsets(r):
            def fr(vw, r=r, seg=seg, cname=cname, up=True):
                o = [x for x in vw.offsets(r) if x[0] == cname]
                if not o:
                    return None
                _, c, e = o[0]
                a, b = ex.seg_array(vw.st, r, seg), ex.seg_array(vw.s0, r, seg)
                if a.eq(b):
                    return True
                lo, hi = bv(suboff(e, seg.start), 64), bv(suboff(c, seg.start), 64)
                if not up:
                    lo, hi = hi, lo
                return Forall(lambda k: Implies(Or(z3.ULT(k, lo), z3.UGE(k, hi)), z3.Select(a, k) == z3.Select(b, k)), roots_of(a) | roots_of(b))
            if not isinstance(seg.w, vc.Family) and seg.w == 8:
                out.append((('frame', m, cname), fr))
        for zi, z in enumerate(view.s0.zeros.get(r.id, ())[:6]):
            def zk(vw, r=r, seg=seg, z=z):
                return z3.Select(ex.seg_array(vw.st, r, seg), bv(suboff(z, seg.start), 64)) == 0
            if seg.w == 8:
                out.append((('zkeep', m, zi), zk))
    for cb in ex.loop_inv:
        for (k, f) in cb(view) or ():
            out.append((('spec',) + ((k,) if not isinstance(k, tuple) else k), f))
    return out
