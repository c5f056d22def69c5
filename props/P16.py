"""Parameters of remote calls."""
from prop import *

P = Property('P16', ['daemon/remote/XmlRpc.cpp', 'daemon/util/Util.cpp'])

P.native('params.cpp', ['daemon/remote/XmlRpc.cpp', 'daemon/util/Util.cpp', 'daemon/util/NString.cpp'], always=True, seconds=8,
         label='random parameter lists in every protocol, truncated and malformed requests', bound='up to 5 parameters, requests of up to some kilobytes')

I32, I64 = (lambda x: z3.BitVecVal(x, 32)), (lambda x: z3.BitVecVal(x, 64))
GET, POST = 1, 0
XML, JSON, JSONP = 1, 2, 3
LIMIT = 1 << 30     # size of a request


def within(c, st, p, req, what, extra=0):
    """the pointer is null or points into the text"""
    for g, r, o, _ in int_to_ptr(p).alts:
        if r is NULL:
            continue
        c.ensure(st, what, Implies(g, And(B(r is req), z3.ULE(bv(o, 64), req.len))))


@P.unit('json-value', fn='WebUtil::JsonNextValue')
def json_value(c):
    """the contract used below: the next value of a JSON text and its length"""
    req, out = c.cstr('request', LIMIT), c.buffer('length', 4, 32)
    start = c.var('start', 64)
    c.assume(z3.ULE(start, req.len))
    st, r = c.run('WebUtil::JsonNextValue', [Ptr(req, start), Ptr(out, 0)])
    n = z3.SignExt(32, z3.Select(c.arr(out, st), I64(0)))
    text = c.arr(req)
    for g, reg, o, _ in int_to_ptr(r).alts:
        if reg is NULL:
            continue
        o = bv(o, 64)
        c.ensure(st, 'the value is within the text', Implies(g, And(B(reg is req), z3.UGE(o, start), z3.ULT(o, req.len), n >= 0, z3.ULE(o + n, req.len))))
        c.ensure(st, 'a text value of more than one character has characters', Implies(And(g, z3.Select(text, o) == 34), n >= 1))
        c.ensure(st, 'no value is empty except at a closing bracket', Implies(And(g, n == 0), Or(z3.Select(text, o) == ord(']'), z3.Select(text, o) == ord('}'))))
    c.cover(st, 'value found', Or(*[B(g) for g, reg, _, _ in int_to_ptr(r).alts if reg is req]))


def simple_strstr(c, req):
    """strstr finds its literal at or after the start of the search"""
    text, hits = c.arr(req), []

    def strstr(ex, st, a, i):
        from models import const_str
        lit = const_str(ex, st, a[1])
        q = [x for x in int_to_ptr(a[0]).alts if x[1] is req]
        k, none = ex.fresh('hit', 64), ex.freshb('no_hit')
        null = Or(*[B(x[0]) for x in int_to_ptr(a[0]).alts if x[1] is NULL]) if any(x[1] is NULL for x in int_to_ptr(a[0]).alts) else B(False)
        o = bv(q[0][2], 64)
        ex.oblige(st, 'mem', 'searched within the request', And(Not(null), z3.ULE(o, req.len)), where='strstr')
        ex.assume(None, Implies(Not(none), And(z3.UGE(k, o), z3.ULE(k, req.len), z3.UGE(req.len - k, len(lit)), *[z3.Select(text, k + j) == x for j, x in enumerate(lit)])))
        # consequences for overlapping hits, spelled out for the solver
        for k0, none0, lit0 in hits:
            for j in range(len(lit0)):
                if lit[0] != lit0[j] or (j + 1 < len(lit0) and lit[1] != lit0[j + 1]):
                    ex.assume(None, Implies(And(Not(none), Not(none0)), k != k0 + j))
        hits.append((k, none, lit))
        return Ptr([(none, NULL, 0, None), (Not(none), req, k, None)])
    c.contract('strstr', strstr)


for tag in ('value', 'i4', 'int', 'boolean', 'string', 'methodName'):
    @P.unit('xml-tag-' + tag, fn='WebUtil::XmlFindTag')
    def xml_tag(c, tag=tag):
        """the contract used below: an element is found within the text, followed by its end tag"""
        ex = c.ex
        req, out = c.cstr('xml', LIMIT), c.buffer('length', 4, 32)
        start = c.var('start', 64)
        c.assume(z3.ULE(start, req.len))
        from models import const_str
        simple_strstr(c, req)
        bufs = {}

        def bstring(ex, st, a, i):
            f = const_str(ex, st, a[1]).decode() % const_str(ex, st, a[2]).decode()
            bufs[int_to_ptr(a[0]).alts[0][1].id] = c.text(f)
        c.contract('BString<100>::BString', bstring)
        c.contract('BString<100>::operator char*', lambda ex, st, a, i: bufs[int_to_ptr(a[0]).alts[0][1].id])
        st, r = c.run('WebUtil::XmlFindTag', [Ptr(req, start), c.text(tag), Ptr(out, 0)])
        n = z3.SignExt(32, z3.Select(c.arr(out, st), I64(0)))
        for g, reg, o, _ in int_to_ptr(r).alts:
            if reg is NULL:
                continue
            o = bv(o, 64)
            c.ensure(st, 'the element is within the text and followed by its end tag', Implies(g, And(B(reg is req), z3.UGE(o, start), n >= 0, z3.ULE(o, req.len), z3.ULE(o + n + len(tag) + 3, req.len))))


def find_tag(c, req):
    """contract of XmlFindTag as proved above"""
    ex = c.ex

    def h(ex, st, a, i):
        from models import const_str
        tag = const_str(ex, st, a[1]).decode()
        o = [bv(o, 64) for g, r, o, _ in int_to_ptr(a[0]).alts if r is req]
        if len(o) != 1:
            raise Inconclusive('searched in another text')
        hit, n, none = ex.fresh('hit', 64), ex.fresh('n', 32), ex.freshb('none')
        ex.oblige(st, 'post', 'searched within the request', z3.ULE(o[0], req.len), where='XmlFindTag')
        n0 = ex.load(st, a[2], 'i32', 4)
        ex.assume(None, Implies(Not(none), And(z3.UGE(hit, o[0]), n >= 0, z3.ULE(hit, req.len), z3.ULE(hit + z3.SignExt(32, n) + len(tag) + 3, req.len))))
        ex.store(st, a[2], z3.If(none, bv(n0, 32), n) if not isinstance(n0, Undef) else n, 'i32', 4)
        return Ptr([(none, NULL, 0, None), (Not(none), req, hit, None)])
    c.contract('WebUtil::XmlFindTag', h)


@P.unit('xml-value', fn='XmlCommand::XmlNextValue')
def xml_value(c):
    ex = c.ex
    req, out = c.cstr('request', LIMIT), c.buffer('length', 4, 32)
    start = c.var('start', 64)
    c.assume(z3.ULE(start, req.len))
    find_tag(c, req)
    cmd = c.obj('XmlCommand', 'command')
    st, r = c.run('XmlCommand::XmlNextValue', [Ptr(cmd, 0), Ptr(req, start), c.text('string'), Ptr(out, 0)])
    n = z3.SignExt(32, z3.Select(c.arr(out, st), I64(0)))
    for g, reg, o, _ in int_to_ptr(r).alts:
        if reg is not NULL:
            c.ensure(st, 'the value is within the text and followed by its end tag', Implies(g, And(B(reg is req), z3.UGE(bv(o, 64), start), n >= 0, z3.ULE(bv(o, 64) + n + 9, req.len))))


class Params:
    def __init__(self, c):
        self.c, ex = c, c.ex
        self.cmd, self.req = c.obj('XmlCommand', 'command'), c.cstr('request', LIMIT)
        self.pos = c.var('position', 64)
        c.assume(z3.ULE(self.pos, self.req.len))
        self.cmd.ptr_init[ex.off('XmlCommand', 'm_requestPtr')] = Ptr(self.req, self.pos)
        self.proto, self.meth = bv(c.get(self.cmd, 'm_protocol'), 32), bv(c.get(self.cmd, 'm_httpMethod'), 32)
        c.assume(self.proto >= 1, self.proto <= 3, self.meth >= 0, self.meth <= 1)
        self.json = self.proto != XML
        # the values present at the position: by type as the protocol marks it
        self.n, self.at, self.none = c.var('value_length', 32), c.var('value_offset', 64), ex.freshb('no_value')
        req, pos = self.req, self.pos
        c.assume(Implies(Not(self.none), And(z3.UGE(self.at, pos), z3.ULT(self.at, req.len), self.n >= 0, z3.ULE(self.at + z3.SignExt(32, self.n), req.len))))
        text = c.arr(req)
        c.assume(Implies(And(Not(self.none), z3.Select(text, self.at) == 34), self.n >= 1))

        def json_value(ex, st, a, i):
            q = [x for x in int_to_ptr(a[0]).alts if x[1] is req]
            ex.oblige(st, 'post', 'the next value is searched from the current position', And(bv(q[0][2], 64) == pos, B(len(q) == 1)), where='JsonNextValue')
            ex.store(st, a[1], self.n, 'i32', 4)
            return Ptr([(self.none, NULL, 0, None), (Not(self.none), req, self.at, None)])
        c.contract('WebUtil::JsonNextValue', json_value)
        self.xml = {}

        def xml_value(ex, st, a, i):
            from models import const_str
            tag = const_str(ex, st, a[2]).decode()
            q = [x for x in int_to_ptr(a[1]).alts if x[1] is req]
            ex.oblige(st, 'post', 'the next value is searched from the current position', And(bv(q[0][2], 64) == pos, B(len(q) == 1)), where='XmlNextValue')
            if tag not in self.xml:
                self.xml[tag] = (ex.fresh('at_' + tag, 64), ex.fresh('n_' + tag, 32), ex.freshb('no_' + tag))
                at, n, none = self.xml[tag]
                ex.assume(None, Implies(Not(none), And(z3.UGE(at, pos), n >= 0, z3.ULE(at, req.len), z3.ULE(at + z3.SignExt(32, n) + len(tag) + 3, req.len))))
            at, n, none = self.xml[tag]
            n0 = ex.load(st, a[3], 'i32', 4)
            ex.store(st, a[3], z3.If(none, bv(n0, 32), n) if not isinstance(n0, Undef) else n, 'i32', 4)
            return Ptr([(none, NULL, 0, None), (Not(none), req, at, None)])
        c.contract('XmlCommand::XmlNextValue', xml_value)
        self.number = z3.Array('number_at', z3.BitVecSort(64), z3.BitVecSort(32))

        def atoi(ex, st, a, i):
            q = [x for x in int_to_ptr(a[0]).alts if x[1] is req]
            ex.oblige(st, 'mem', 'number within the request', z3.ULE(bv(q[0][2], 64), req.len), where='atoi')
            return z3.Select(self.number, bv(q[0][2], 64))
        c.contract('atoi', atoi)

    def position(self, st):
        c = self.c
        p = c.get(self.cmd, 'm_requestPtr', st)
        return [(g, r, bv(o, 64)) for g, r, o, _ in int_to_ptr(p).alts]

    def stays_within(self, st):
        for g, r, o in self.position(st):
            self.c.ensure(st, 'the next parameter is read from within the request', Implies(g, And(B(r is self.req), z3.ULE(o, self.req.len), z3.UGE(o, self.pos))))

    def unchanged(self, st, cond):
        for g, r, o in self.position(st):
            self.c.ensure(st, 'a parameter of another type stays available', Implies(And(g, cond), And(B(r is self.req), o == self.pos)))


def digit(x):
    return Or(And(x >= 48, x <= 57), x == ord('-'), x == ord('+'), x == 0)


@P.unit('int', fn='XmlCommand::NextParamAsInt')
def as_int(c):
    w, out = Params(c), c.buffer('value', 4, 32)
    text = c.arr(w.req)

    def inv(v):
        r = []
        for x in v.vars:
            try:
                if not x.ptr or not all(q in (w.req, NULL) for _, q, _, _ in int_to_ptr(v.cur(x)).alts):
                    continue
            except (Inconclusive, KeyError):
                continue
            r.append((('within the request', x.key), lambda s, x=x: And(*[Implies(B(g), And(B(q is w.req), z3.ULE(bv(o, 64), w.req.len), z3.UGE(bv(o, 64), w.pos))) for g, q, o, _ in int_to_ptr(s.cur(x)).alts])))
        return r
    c.ex.loop_inv.append(inv)
    st, r = c.run('XmlCommand::NextParamAsInt', [Ptr(w.cmd, 0), Ptr(out, 0)])
    w.stays_within(st)
    got = z3.Select(c.arr(out, st), I64(0))
    post = w.meth == POST
    w.unchanged(st, And(post, Not(B(r))))
    isnum = digit(z3.Select(text, w.at))
    c.ensure(st, 'a number is delivered exactly if the next value is one (JSON)', Implies(And(post, w.json), B(r) == And(Not(w.none), isnum)))
    c.ensure(st, 'and it is that one (JSON)', Implies(And(post, w.json, B(r)), got == z3.Select(w.number, w.at)))
    i4, int_ = w.xml.get('i4'), w.xml.get('int')
    if i4 and int_:
        at, none = z3.If(i4[2], int_[0], i4[0]), And(i4[2], int_[2])
        c.ensure(st, 'a number is delivered exactly if the next value is one (XML)', Implies(And(post, Not(w.json)), B(r) == And(Not(none), digit(z3.Select(text, at)))))
        c.ensure(st, 'and it is that one (XML)', Implies(And(post, Not(w.json), B(r)), got == z3.Select(w.number, at)))
    c.cover(st, 'read', B(r))


@P.unit('bool', fn='XmlCommand::NextParamAsBool')
def as_bool(c):
    w, out = Params(c), c.buffer('value', 1, 8)
    c.contract('XmlCommand::NextParamAsStr', lambda ex, st, a, i: ex.freshb('text'))
    c.assume(w.meth == POST)
    text = c.arr(w.req)
    st, r = c.run('XmlCommand::NextParamAsBool', [Ptr(w.cmd, 0), Ptr(out, 0)])
    w.stays_within(st)
    w.unchanged(st, Not(B(r)))
    got = z3.Select(c.arr(out, st), I64(0))
    lit = lambda s: And(w.n == len(s), *[z3.Select(text, w.at + k) == ord(x) for k, x in enumerate(s)])
    c.ensure(st, 'a truth value is delivered exactly if the next value is one (JSON)', Implies(w.json, B(r) == And(Not(w.none), Or(lit('true'), lit('false')))))
    c.ensure(st, 'and it is that one (JSON)', Implies(And(w.json, B(r)), got == z3.If(lit('true'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
    x = w.xml.get('boolean')
    if x:
        c.ensure(st, 'the truth value is delivered (XML)', Implies(Not(w.json), And(B(r) == Not(x[2]), Implies(B(r), got == z3.If(z3.Select(text, x[0]) == 49, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))))
    c.cover(st, 'read', B(r))


@P.unit('text', fn='XmlCommand::NextParamAsStr')
def as_text(c):
    ex = c.ex
    w, out = Params(c), c.obj('XmlCommand', 'out')
    f = ex.off('XmlCommand', 'm_callbackFunc')
    text = c.arr(w.req)
    st, r = c.run('XmlCommand::NextParamAsStr', [Ptr(w.cmd, 0), Ptr(out, f)])
    w.stays_within(st)
    post = w.meth == POST
    w.unchanged(st, And(post, Not(B(r))))
    got = ex.load(st, Ptr(out, f), 'ptr', 8)
    after = c.arr(w.req, st)
    n = z3.SignExt(32, w.n)
    isstr = And(Not(w.none), w.n >= 2, z3.Select(text, w.at) == 34, z3.Select(text, w.at + n - 1) == 34)
    c.ensure(st, 'a text is delivered exactly if the next value is one (JSON)', Implies(And(post, w.json), B(r) == isstr))
    x = w.xml.get('string')
    if x:
        c.ensure(st, 'a text is delivered exactly if the next value is one (XML)', Implies(And(post, Not(w.json)), B(r) == Not(x[2])))
    for g, reg, o, _ in int_to_ptr(got).alts:
        if reg is not w.req:
            c.ensure(st, 'a text is delivered', Implies(g, Not(B(r))))
            continue
        o = bv(o, 64)
        c.ensure(st, 'the text is within the request', Implies(And(g, B(r)), z3.ULE(o, w.req.len)))
        c.ensure(st, 'it is the text between the quotes', Implies(And(g, B(r), post, w.json), And(o == w.at + 1, z3.Select(after, w.at + n - 1) == 0)))
        if x:
            c.ensure(st, 'it is the content of the element', Implies(And(g, B(r), post, Not(w.json)), And(o == x[0], z3.Select(after, o + z3.SignExt(32, x[1])) == 0)))
    k = c.var('other_offset', 64)
    c.ensure(st, 'only the end of the text is overwritten', Implies(And(z3.ULT(k, w.req.len), z3.Select(after, k) != z3.Select(text, k)), z3.Select(after, k) == 0))
    c.cover(st, 'read', B(r))


@P.unit('prepare', fn='XmlCommand::PrepareParams')
def prepare(c):
    w = Params(c)
    simple_strstr(c, w.req)
    c.contract('XmlCommand::NextParamAsStr', lambda ex, st, a, i: c.ex.freshb('text'))
    st, r = c.run('XmlCommand::PrepareParams', [Ptr(w.cmd, 0)])
    w.stays_within(st)
