"""Discharging obligations: own quantifier instantiation + z3, with cvc5 / z3-new on SMT-LIB as second opinions."""
import os, subprocess, tempfile, time, signal, pickle, select as _select
import z3
from vc import Forall, And, Or, Not, Implies, B, roots_of, uid, bv

_roots_cache = {}


def _roots(a):
    i = a.get_id()
    r = _roots_cache.get(i)
    if r is None or not r[0].eq(a):
        r = (a, roots_of(a))
        _roots_cache[i] = r
    return r[1]


_norm_cache = {}


def norm(t):
    """one representative per index up to linear arithmetic"""
    i = t.get_id()
    r = _norm_cache.get(i)
    if r is None or not r[0].eq(t):
        r = (t, z3.simplify(t, som=True))
        _norm_cache[i] = r
    return r[1]


def collect(exprs, idx, seen):
    """idx: root array id -> {term id: term} for all select/store indices in exprs"""
    st = list(exprs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and x.num_args() >= 2:
                t = norm(x.arg(1))
                for r in _roots(x.arg(0)):
                    idx.setdefault(r, {})[t.get_id()] = t
            elif k == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.arg(0).sort_kind() == z3.Z3_BV_SORT:
                t = norm(x.arg(0))
                idx.setdefault(('f', x.decl().name()), {})[t.get_id()] = t
            st.extend(x.children())


LEAFDUMP = os.environ.get('LEAFDUMP')


class Q(list):
    pci = 0


def query(facts, pc, goal, rounds=3, cap=400):
    """ground assertion list whose unsatisfiability proves the obligation; flag: quantified facts were relevant"""
    ground, quant = [], []
    for f in facts:
        (quant if isinstance(f, Forall) else ground).append(f)
    if isinstance(goal, Forall):
        k = z3.BitVec(f'sk!{uid()}', 64)
        g = goal.fn(k)
    else:
        g = goal
    tail = [B(pc), B(Not(B(g)))]
    out = Q(ground + tail)
    out.pci = len(ground)
    used = False
    if quant:
        idx, seen, done = {}, {}, set()
        extra = {}
        if isinstance(goal, Forall):
            extra[k.get_id()] = k
        collect(out, idx, seen)
        for rnd in range(rounds):
            new = []
            for qi, q in enumerate(quant):
                terms = dict(extra)
                for r in q.roots:
                    terms.update(idx.get(r, {}))
                for tid, t in list(terms.items())[:cap]:
                    if (qi, tid) in done or t.sort() != z3.BitVecSort(64):
                        continue
                    done.add((qi, tid))
                    inst = q.fn(t)
                    if inst is True:
                        continue
                    used = True
                    new.append(B(inst))
            if not new:
                break
            out += new
            collect(new, idx, seen)
    return out, used


def check(asserts, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.add(asserts)
    t = time.time()
    r = s.check()
    return r, s, time.time() - t


def _conjuncts(e):
    st, out = [e], []
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(reversed(x.children()))
        else:
            out.append(x)
    return out


def cases(e):
    """the branches of the last merge in a path condition (a disjunction of conjunctions), or None"""
    for x in reversed(_conjuncts(e)):
        if z3.is_or(x) and x.num_args() >= 2 and any(z3.is_and(y) for y in x.children()):
            rest = [y for y in _conjuncts(e) if not y.eq(x)]
            out = []
            for y in x.children():
                out.append(z3.And(rest + [y]))
            return out
    return None


def check_cases(q, pci, timeout, depth=8, total=None):
    """check; when undecided, one branch of the merged paths at a time.  q[pci] is the path condition"""
    total = total if total is not None else time.time() + timeout * 6 / 1000
    cs = cases(z3.simplify(q[pci], elim_and=False)) if depth else None
    r, s, d0 = lazy_arrays(q, min(timeout, 8000 if cs else timeout / 2))
    if r != z3.unknown:
        return r, s, d0
    if LEAFDUMP and not cs:
        open(f'{LEAFDUMP}/leaf{uid()}.smt2', 'w').write(smt2(q))
    r, s, dt = check(q, min(timeout, 3000)) if cs else portfolio(q, timeout)
    dt += d0
    if r != z3.unknown or not cs:
        return r, s, dt
    for c in cs:
        if time.time() > total:
            return z3.unknown, s, dt
        q2 = list(q)
        q2[pci] = c
        r2, s2, d2 = check_cases(q2, pci, timeout, depth - 1, total)
        dt += d2
        if r2 != z3.unsat:
            return r2, s2, dt
    return z3.unsat, s, dt


def portfolio(asserts, timeout):
    """several strategies of the solver side by side; the first definite answer counts"""
    mks = (lambda: z3.Solver(), lambda: z3.Tactic('smt').solver(), lambda: z3.Tactic('qfaufbv').solver())
    t0 = time.time()
    run = {}
    for mk in mks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                s = mk()
                s.set('timeout', int(timeout))
                s.add(asserts)
                x = s.check()
                d = pickle.dumps((str(x), model_values(s.model()) if x == z3.sat else None))
                os.write(w, d[:60000] if len(d) < 60000 else pickle.dumps((str(x), {})))
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        run[r] = pid
    out = (z3.unknown, None)
    end = t0 + timeout / 1000 + 5
    live = dict(run)
    while live and time.time() < end and out[0] == z3.unknown:
        rl, _, _ = _select.select(list(live), [], [], max(0.1, end - time.time()))
        for r in rl:
            d = os.read(r, 1 << 16)
            del live[r]
            if d:
                x, m = pickle.loads(d)
                if x in ('sat', 'unsat') and out[0] == z3.unknown:
                    out = (z3.sat if x == 'sat' else z3.unsat, m)
    for r, pid in run.items():
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(r)
    return out[0], _Found(out[1]), time.time() - t0


class _Found:
    def __init__(self, m):
        self.m = m

    def model(self):
        return self.m


def flatten_arrays(asserts):
    """reads of input arrays become constants, one per array and index expression; -> (formula, [(array, index, constant)])"""
    f = z3.And(list(asserts))
    names = {}
    for _ in range(6):
        sel, seen, st = [], set(), [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if not has_select(x.arg(1)):
                        sel.append(x)
                st.extend(x.children())
        if not sel:
            break
        sub = []
        for x in sel:
            i = norm(x.arg(1))
            k = (x.arg(0).decl().name(), i.get_id())
            if k not in names:
                names[k] = (x.arg(0), i, z3.FreshConst(x.sort(), 'rd'))
            sub.append((x, names[k][2]))
        f = z3.substitute(f, sub)
    whole, seen, st = set(), set(), [f]
    while st:                   # arrays that also occur otherwise (stores, comparisons)
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_array(x) and z3.is_const(x):
            whole.add(x.decl().name())
        st.extend(x.children())
    return f, list(names.values()), whole


_hs_cache = {}


def has_select(e):
    i = e.get_id()
    r = _hs_cache.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    v = z3.is_select(e) or any(has_select(x) for x in e.children())
    _hs_cache[i] = (e, v)
    return v


def lazy_arrays(asserts, timeout):
    """reads as constants; functional consistency (equal indices, equal values) is added only where a model violates it"""
    t0 = time.time()
    f, reads, whole = flatten_arrays(asserts)
    lemmas = []
    if not reads:
        return z3.unknown, None, 0
    by = {}
    for (a, i, v) in reads:
        by.setdefault(a.decl().name(), []).append((i, v))
    link = [z3.Select(a, i) == v for (a, i, v) in reads if a.decl().name() in whole]
    while True:
        left = timeout - (time.time() - t0) * 1000
        if left < 50:
            return z3.unknown, None, time.time() - t0
        s = z3.Then(z3.With('simplify', som=True), 'propagate-values', 'solve-eqs', z3.With('simplify', som=True), 'propagate-values', 'solve-eqs', 'smt').solver()
        s.set('timeout', int(left))
        s.add(f)
        s.add(lemmas)
        s.add(link)
        r = s.check()
        if r != z3.sat:
            return r, s, time.time() - t0
        m = s.model()
        new = []
        for n, l in by.items():
            seen = {}
            for (i, v) in l:
                iv, vv = m.eval(i, model_completion=True), m.eval(v, model_completion=True)
                o = seen.setdefault(iv.as_long(), (i, v, vv))
                if not o[2].eq(vv):
                    new.append(Implies(o[0] == i, o[1] == v))
        if not new:
            return (z3.sat if not whole else z3.unknown), s, time.time() - t0
        lemmas += new


_sym_cache = {}


def symbols(e):
    """names of the scalar constants of an expression"""
    i = e.get_id()
    r = _sym_cache.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_array(x):
                out.add(x.decl().name())
            else:
                st.extend(x.children())
    _sym_cache[i] = (e, frozenset(out))
    return _sym_cache[i][1]


def sliced(facts, pc, goal):
    """the obligation with only those hypotheses which speak about the goal's own variables (fewer hypotheses: sound)"""
    g = goal.fn(z3.BitVec('sk!slice', 64)) if isinstance(goal, Forall) else goal
    want = set(symbols(B(g)))
    conj = _conjuncts(B(pc))
    # what the current step computed from them counts as well
    f2 = [f for f in facts if isinstance(f, Forall) or symbols(f) <= want]
    c2 = [c for c in conj if symbols(c) and symbols(c) <= want]
    if len(f2) + len(c2) + 3 > len(facts) + len(conj):
        return None
    return f2, z3.And(c2) if c2 else z3.BoolVal(True)


def decide(facts, pc, goal, timeout, split=True):
    """-> (z3 result, model or None, seconds, query)"""
    q, used = query(facts, pc, goal)
    if not split:
        r, s, dt = check(q, timeout)
        return r, s, dt, q
    r, s, dt = check(q, min(timeout, 400))
    if r != z3.unknown:
        return r, s, dt, q
    sl = sliced(facts, pc, goal)
    if sl is not None:
        q2, _ = query(sl[0], sl[1], goal)
        r2, s2, d2 = check_cases(q2, q2.pci, timeout)
        dt += d2
        if r2 == z3.unsat:
            return r2, s2, dt, q
    r, s, d2 = check(q, min(timeout, 3000))
    dt += d2
    if r == z3.unknown:
        r, s, d2 = check_cases(q, q.pci, timeout)
        dt += d2
    return r, s, dt, q


def fork_map(fn, items, jobs=6):
    """[fn(x) for x in items] in forked workers; None where a worker failed"""
    if len(items) < 2 or jobs < 2:
        return [fn(x) for x in items]
    jobs = min(jobs, len(items))
    nr, nw = os.pipe()
    for i in range(len(items)):
        os.write(nw, i.to_bytes(4, 'little'))
    os.close(nw)
    out, pipes, pids = [None] * len(items), {}, []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                while True:
                    d = os.read(nr, 4)
                    if len(d) < 4:
                        break
                    i = int.from_bytes(d, 'little')
                    try:
                        v = fn(items[i])
                    except Exception:
                        v = None
                    data = pickle.dumps((i, v))
                    os.write(w, len(data).to_bytes(4, 'little') + data)
            finally:
                os._exit(0)
        os.close(w)
        pipes[r] = b''
        pids.append(pid)
    os.close(nr)
    live = set(pipes)
    while live:
        rl, _, _ = _select.select(list(live), [], [])
        for r in rl:
            d = os.read(r, 1 << 16)
            if not d:
                live.discard(r)
                os.close(r)
                continue
            pipes[r] += d
            while len(pipes[r]) >= 4:
                n = int.from_bytes(pipes[r][:4], 'little')
                if len(pipes[r]) < 4 + n:
                    break
                i, v = pickle.loads(pipes[r][4:4 + n])
                pipes[r] = pipes[r][4 + n:]
                out[i] = v
    for pid in pids:
        os.waitpid(pid, 0)
    return out


def prove(facts, pc, goal, timeout=8000, split=False):
    """-> (status, model, seconds); status proved / refuted / unknown"""
    if goal is True:
        return 'proved', None, 0
    r, s, dt, q = decide(facts, pc, goal, timeout, split)
    if r == z3.unsat:
        return 'proved', None, dt
    if r == z3.sat:
        return 'refuted', s.model(), dt
    return 'unknown', None, dt


def feasible(ex, pc, extra=True):
    n = len(ex.facts)
    if ex._fs is None or ex._fsn > n or (ex._fsn and ex._fslast is not ex.facts[ex._fsn - 1]):
        ex._fs = z3.Solver()
        ex._fs.set('timeout', ex.cfg.feas_timeout)
        ex._fsn = 0
    for f in ex.facts[ex._fsn:]:
        if not isinstance(f, Forall):
            ex._fs.add(f)
    ex._fsn = n
    ex._fslast = ex.facts[n - 1] if n else None
    ex._fs.push()
    ex._fs.add(B(pc))
    if extra is not True:
        ex._fs.add(B(extra))
    r = ex._fs.check()
    ex._fs.pop()
    return r != z3.unsat


def smt2(asserts):
    s = z3.Solver()
    s.add(asserts)
    return s.to_smt2()


def external(asserts, timeout):
    """cvc5 then z3-new on the SMT-LIB text"""
    txt = smt2(asserts)
    fd, path = tempfile.mkstemp(suffix='.smt2', dir=os.environ.get('VERIF_SCRATCH'))
    os.write(fd, txt.encode())
    os.close(fd)
    try:
        for name, cmd in (('cvc5', ['cvc5', '--tlimit=%d' % timeout, path]), ('z3-new', ['z3-new', '-T:%d' % max(1, timeout // 1000), path])):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 5)
                o = p.stdout.decode().strip().split('\n')[0]
            except Exception:
                o = ''
            if o in ('unsat', 'sat'):
                return o, name
    finally:
        os.unlink(path)
    return 'unknown', ''


def model_values(m, limit=60):
    out = {}
    for d in m.decls():
        if d.arity() == 0 and len(out) < limit:
            v = m[d]
            if z3.is_array(v) or isinstance(v, z3.FuncInterp):
                s = str(v)[:300]
            else:
                s = str(v)
            out[d.name()] = s
    return out


def discharge(ex, obls=None, timeout=20000, jobs=8, ext=True):
    """prove all open obligations in parallel worker processes; fills status/backend/time/model"""
    obls = [o for o in (obls if obls is not None else ex.obls)]
    todo = []
    for o in obls:
        if o.goal is True:
            o.status, o.backend = 'proved', 'simplifier'
        else:
            todo.append(o)
    if not todo:
        return
    jobs = min(jobs, len(todo))
    pipes = []
    nxt = os.pipe()  # work queue: bytes with indices
    for i in range(len(todo)):
        os.write(nxt[1], i.to_bytes(4, 'little'))
    os.close(nxt[1])
    pids = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                while True:
                    d = os.read(nxt[0], 4)
                    if len(d) < 4:
                        break
                    i = int.from_bytes(d, 'little')
                    o = todo[i]
                    t0 = time.time()
                    st, mv, be, quant = 'unknown', None, 'z3', False
                    try:
                        facts = ex.facts[:o.nf]
                        rr, s, dt, q = decide(facts, o.pc, o.goal, timeout)
                        if rr == z3.unsat:
                            st = 'proved'
                        elif rr == z3.sat:
                            st, mv = 'refuted', s.model() if isinstance(s, _Found) else model_values(s.model())
                        elif ext:
                            er, be2 = external(q, timeout)
                            if er == 'unsat':
                                st, be = 'proved', be2
                            elif er == 'sat':
                                st, be = 'refuted', be2
                    except Exception as e:
                        st, mv = 'unknown', {'error': repr(e)[:300]}
                    data = pickle.dumps((i, st, mv, be, time.time() - t0))
                    os.write(w, len(data).to_bytes(4, 'little') + data)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append(r)
        pids.append(pid)
    os.close(nxt[0])
    bufs = {r: b'' for r in pipes}
    live = set(pipes)
    while live:
        rl, _, _ = _select.select(list(live), [], [], 600)
        if not rl:
            break
        for r in rl:
            d = os.read(r, 1 << 16)
            if not d:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += d
            while len(bufs[r]) >= 4:
                n = int.from_bytes(bufs[r][:4], 'little')
                if len(bufs[r]) < 4 + n:
                    break
                i, st, mv, be, dt = pickle.loads(bufs[r][4:4 + n])
                bufs[r] = bufs[r][4 + n:]
                o = todo[i]
                o.status, o.model, o.backend, o.time = st, mv, be, dt
    for pid in pids:
        try:
            os.kill(pid, signal.SIGKILL) if live else None
        except OSError:
            pass
        os.waitpid(pid, 0)
    for o in todo:
        if o.status is None:
            o.status = 'unknown'
