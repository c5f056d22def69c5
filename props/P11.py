"""Decoding of text received from clients, feeds and indexers: memory safety for every input, step contracts."""
from prop import *

P = Property('P11', ['daemon/util/Util.cpp', 'daemon/util/NString.cpp'])


def inplace(name, fn, step=None):
    @P.unit(name, fn=fn)
    def body(c, fn=fn, step=step):
        raw = c.cstr('raw')
        if step:
            c.step_contract(fn, raw, step, fn.split('::')[1] + ' step')
        st, _ = c.run(fn, [Ptr(raw, 0)])
        c.cover(st, 'returns')
    return body


def ch(x):
    return ord(x)


def hexv(c):
    return z3.If(And(z3.UGE(c, 48), z3.ULE(c, 57)), c - 48, z3.If(And(z3.UGE(c, 65), z3.ULE(c, 70)), c - 55, z3.If(And(z3.UGE(c, 97), z3.ULE(c, 102)), c - 87, z3.BitVecVal(0, 8))))


def url_step(get, p, o):
    pct = get(p) == ch('%')
    full = And(get(p + 1) != 0, get(p + 2) != 0)
    return [(Not(pct), [p + 1, o + 1], {o: get(p)}),
            (And(pct, full), [p + 3, o + 1], {o: hexv(get(p + 1)) * 16 + hexv(get(p + 2))})] + \
           [(And(pct, get(p + 1) != 0, get(p + 2) == 0), [p + 2, o + 1], {o: hexv(get(p + 1)) * 16}),
            (And(pct, get(p + 1) == 0), [p + 1, o + 1], {o: z3.BitVecVal(0, 8)})]


inplace('url-decode', 'WebUtil::UrlDecode', url_step)
inplace('http-unquote', 'WebUtil::HttpUnquote')
inplace('xml-decode', 'WebUtil::XmlDecode')
inplace('xml-strip-tags', 'WebUtil::XmlStripTags')
inplace('xml-remove-entities', 'WebUtil::XmlRemoveEntities')
inplace('json-decode', 'WebUtil::JsonDecode')


@P.unit('json-next-value', fn='WebUtil::JsonNextValue')
def json_next(c):
    raw = c.cstr('json', 1 << 30)
    out = c.buffer('valueLength', 4, 32)
    st, r = c.run('WebUtil::JsonNextValue', [Ptr(raw, 0), Ptr(out, 0)])
    for (g, reg, off, s) in r.alts:
        if reg.kind == 'null':
            continue
        n = z3.SignExt(32, z3.Select(c.arr(out, st), bv(0, 64)))
        c.ensure(st, 'token lies within the text', Implies(g, And(reg is raw, z3.ULE(bv(off, 64), raw.len), z3.UGT(n, 0) if False else n >= 0, z3.ULE(bv(off, 64) + n, raw.len))))
    c.cover(st, 'returns')


@P.unit('base64', fn='WebUtil::DecodeBase64')
def base64(c):
    n = c.var('n', 32)
    size = z3.SignExt(32, n)
    c.assume(n > 0)
    inp = c.buffer('input', size)
    OK = lambda x: Or(And(x >= 48, x <= 57), And(x >= 65, x <= 90), And(x >= 97, x <= 122), x == 43, x == 47, x == 61)

    def inv(v):
        r = []
        ints = [i for i in v.ints(32)]
        for m in v.mods:
            if m[0] == 'seg' and v.ex.region_of(m[1]).size == 4:
                reg = v.ex.region_of(m[1])
                for q, _, _ in ints:
                    r.append((('alphabet', q.key), lambda w, q=q, reg=reg: Forall(lambda k: Implies(z3.ULT(k, z3.ZeroExt(32, bv(w.cur(q), 32))), OK(z3.Select(c.arr(reg, w.st), k))), roots_of(c.arr(reg, w.st)))))
        z = lambda w, q: z3.ZeroExt(32, bv(w.cur(q), 32))
        for a, _, _ in ints:
            for b, _, _ in ints:
                for d, _, _ in ints:
                    if len({a.key, b.key, d.key}) == 3:
                        r.append((('quarter', a.key, b.key, d.key), lambda w, a=a, b=b, d=d: And(z3.ULE(z(w, b), z(w, d)), z3.ULE(z(w, a), z3.LShR(z(w, d) - z(w, b), 2) * 3))))
        return r
    c.ex.loop_inv.append(inv)
    outp = c.buffer('output', c.var('outsize'))
    c.assume(z3.UGE(outp.size, z3.UDiv(size, z3.BitVecVal(4, 64)) * 3), z3.ULT(outp.size, 1 << 40))
    st, r = c.run('WebUtil::DecodeBase64', [Ptr(inp, 0), n, Ptr(outp, 0)])
    c.ensure(st, 'length result within 3/4 of the input', z3.ULE(z3.ZeroExt(32, bv(r, 32)), z3.UDiv(size, z3.BitVecVal(4, 64)) * 3))


P.native('webdecode.cpp', ['daemon/util/Util.cpp', 'daemon/util/NString.cpp'], label='differential decoding against independent reference decoders', always=True, seconds=6,
         bound='random and directed texts up to 60 fragments')
