"""Who may do what: credentials, commands, files."""
from prop import *

P = Property('P15', ['daemon/remote/WebServer.cpp', 'daemon/remote/XmlRpc.cpp', 'daemon/remote/BinRpc.cpp', 'daemon/main/Options.cpp'])

P.native('access.cpp', ['daemon/remote/WebServer.cpp', 'daemon/remote/XmlRpc.cpp', 'daemon/remote/BinRpc.cpp', 'daemon/remote/RemoteServer.cpp', 'daemon/main/Options.cpp', 'daemon/util/NString.cpp', 'daemon/util/Util.cpp',
         'daemon/util/FileSystem.cpp', 'daemon/util/Observer.cpp', 'daemon/util/Thread.cpp', 'daemon/main/WorkState.cpp', 'lib/par2/md5.cpp'], always=True, seconds=8,
         label='random requests of random users against random access settings', bound='three protocols, 18 methods, 40 requests per configuration')

CONTROL, RESTRICTED, ADD = 0, 1, 2
I32, I64 = (lambda x: z3.BitVecVal(x, 32)), (lambda x: z3.BitVecVal(x, 64))


class Access:
    """the access options and the texts compared with them"""

    def __init__(self, c, names):
        self.c, self.opt = c, c.obj('Options', 'g_Options')
        c.ex.global_region('g_Options').ptr_init[0] = Ptr(self.opt, 0)
        self.texts = {}
        for n in names:
            r = self.texts[n] = c.cstr(n)
            self.opt.ptr_init[c.ex.off('Options', 'm_' + n)] = Ptr(r, 0)
            c.assume((self.id(n) == 0) == (r.len == 0))
        for f in ('warn', 'error', 'debug', 'info'):
            c.contract(f, lambda ex, st, a, i: None)
        c.compares_text('strcmp')

    def id(self, n):
        return z3.Select(self.c.text_ids(self.texts[n]), I64(0))

    def empty(self, n):
        return self.texts[n].len == 0


@P.unit('credentials', fn='WebProcessor::CheckCredentials')
def credentials(c):
    ex = c.ex
    w = Access(c, ['controlPassword', 'controlUsername', 'restrictedUsername', 'restrictedPassword', 'addUsername', 'addPassword', 'authorizedIp'])
    p = c.obj('WebProcessor', 'request')
    con = c.obj('Connection', 'connection')
    c.put(p, 'm_connection', Ptr(con, 0))
    c.contract('Connection::GetRemoteAddr', lambda ex, st, a, i: NULLPTR)
    ipok = ex.freshb('address_is_authorised')
    c.contract('WebProcessor::IsAuthorizedIp', lambda ex, st, a, i: ipok)
    auth, tok = ex.off('WebProcessor', 'm_authInfo'), ex.off('WebProcessor', 'm_authToken')
    k, colon = c.var('colon', 64), ex.freshb('has_colon')
    c.assume(z3.ULT(k, 256))

    def strchr(ex, st, a, i):
        q = int_to_ptr(a[0])
        if len(q.alts) != 1 or q.alts[0][1] is not p or not isinstance(q.alts[0][2], int) or q.alts[0][2] != auth or a[1] != 58:
            raise Inconclusive('another strchr')
        return Ptr([(Not(colon), NULL, 0, None), (colon, p, k + auth, None)])
    c.contract('strchr', strchr)
    none = ex.freshb('no_authorisation_header')
    c.contract('Util::EmptyStr', lambda ex, st, a, i: none if int_to_ptr(a[0]).alts[0][1] is p else B(empty(a[0])))
    by = {r.id: n for n, r in w.texts.items()}

    def empty(x):
        return w.empty(by[int_to_ptr(x).alts[0][1].id])
    ids = c.text_ids(p)
    user, pw, token = z3.Select(ids, I64(auth)), z3.Select(ids, k + (auth + 1)), z3.Select(ids, I64(tok))
    srv = c.text_ids(ex.global_region('_ZN12WebProcessor17m_serverAuthTokenE'))
    tk = lambda j: z3.Select(srv, I64(49 * j))
    def inv(v):
        return [(('no earlier token', x.key), lambda w, x=x: And(*[Implies(I32(j) < bv(w.cur(x), 32), token != tk(j)) for j in range(3)], bv(w.cur(x), 32) >= 0)) for x, _, _ in v.ints(32)]
    ex.loop_inv.append(inv)
    c.contract('CString::Empty', lambda ex, st, a, i: ex.freshb('empty'))
    ex.patterns.append((re.compile(r'^BString<1024>::BString\('), lambda ex, st, a, i: None))
    p0 = c.get(p, 'm_userAccess')
    c.assume(bv(p0, 32) == CONTROL)
    st, r = c.run('WebProcessor::CheckCredentials', [Ptr(p, 0)])
    open_ = Or(w.empty('controlPassword'), And(Not(w.empty('authorizedIp')), ipok))
    ctl = And(colon, Or(w.empty('controlUsername'), user == w.id('controlUsername')), pw == w.id('controlPassword'))
    res = And(colon, Not(w.empty('restrictedUsername')), user == w.id('restrictedUsername'), pw == w.id('restrictedPassword'))
    add = And(colon, Not(w.empty('addUsername')), user == w.id('addUsername'), pw == w.id('addPassword'))
    lvl = bv(c.get(p, 'm_userAccess', st), 32)
    ok = B(r)
    c.ensure(st, 'access without password only if none is set or the address is authorised; otherwise by token or by user and password',
             ok == Or(open_, And(none, Or(token == tk(0), token == tk(1), token == tk(2))), And(Not(none), Or(ctl, res, add))))
    full = Or(open_, And(none, token == tk(0)), And(Not(none), ctl))
    c.ensure(st, 'full access only for the control user', Implies(And(ok, lvl == CONTROL), full))
    c.ensure(st, 'restricted access is for the restricted user', Implies(And(ok, Not(full)), (lvl == RESTRICTED) == Or(And(none, token == tk(1)), And(Not(none), res))))
    c.ensure(st, 'every other user only adds downloads', Implies(And(ok, Not(full)), Or(lvl == RESTRICTED, lvl == ADD)))
    c.cover(st, 'restricted', And(ok, lvl == RESTRICTED))


@P.unit('binary-protocol', fn='BinRpcProcessor::Execute')
def binary(c):
    ex = c.ex
    w = Access(c, ['controlPassword', 'controlUsername'])
    p, con = c.obj('BinRpcProcessor', 'request'), c.obj('Connection', 'connection')
    c.put(p, 'm_connection', Ptr(con, 0))
    got = ex.freshb('received')
    c.contract('Connection::Recv', lambda ex, st, a, i: got)
    c.contract('Connection::GetRemoteAddr', lambda ex, st, a, i: NULLPTR)
    done = c.buffer('commands', I64(8), 32)
    n = lambda st=None: z3.Select(c.arr(done, st), I64(0))
    c.contract('BinRpcProcessor::Dispatch', lambda ex, st, a, i: ex.store(st, Ptr(done, 0), n(st) + 1, 'i32', 4))
    ids, base = c.text_ids(p), ex.off('BinRpcProcessor', 'm_messageBase')
    user, pw = (z3.Select(ids, I64(base + ex.off('SNzbRequestBase', x))) for x in ('m_username', 'm_password'))
    c.assume(n() == 0)
    st, r = c.run('BinRpcProcessor::Execute', [Ptr(p, 0)])
    c.ensure(st, 'a command is executed exactly with the name and password of the control user', n(st) == z3.If(And(got, Or(w.empty('controlUsername'), user == w.id('controlUsername')), pw == w.id('controlPassword')), I32(1), I32(0)))


COMMANDS = {'pause': 'PauseUnpause', 'pausedownload': 'PauseUnpause', 'pausedownload2': 'PauseUnpause', 'resume': 'PauseUnpause', 'resumedownload': 'PauseUnpause',
            'resumedownload2': 'PauseUnpause', 'shutdown': 'Shutdown', 'reload': 'Reload', 'version': 'Version', 'dump': 'DumpDebug', 'rate': 'SetDownloadRate', 'status': 'Status', 'log': 'Log',
            'listfiles': 'ListFiles', 'listgroups': 'ListGroups', 'editqueue': 'EditQueue', 'append': 'Download', 'appendurl': 'Download', 'postqueue': 'PostQueue', 'writelog': 'WriteLog',
            'clearlog': 'ClearLog', 'loadlog': 'LoadLog', 'scan': 'Scan', 'pausepost': 'PauseUnpause', 'resumepost': 'PauseUnpause', 'pausescan': 'PauseUnpause', 'resumescan': 'PauseUnpause',
            'scheduleresume': 'ScheduleResume', 'history': 'History', 'urlqueue': 'UrlQueue', 'config': 'Config', 'loadconfig': 'LoadConfig', 'saveconfig': 'SaveConfig',
            'configtemplates': 'ConfigTemplates', 'viewfeed': 'ViewFeed', 'previewfeed': 'ViewFeed', 'fetchfeed': 'FetchFeed', 'editserver': 'EditServer', 'readurl': 'ReadUrl',
            'checkupdates': 'CheckUpdates', 'startupdate': 'StartUpdate', 'logupdate': 'LogUpdate', 'servervolumes': 'ServerVolumes', 'resetservervolume': 'ResetServerVolume',
            'testserver': 'TestServer', 'startscript': 'StartScript', 'logscript': 'LogScript'}


@P.unit('commands', fn='XmlRpcProcessor::CreateCommand')
def commands(c):
    ex = c.ex
    p = c.obj('XmlRpcProcessor', 'processor')
    name = c.cstr('method')
    for f in ('warn', 'error', 'debug', 'info'):
        c.contract(f, lambda ex, st, a, i: None)
    c.compares_text('strcasecmp')
    classes = ['?', 'Error'] + sorted(set(COMMANDS.values()))
    made = c.buffer('made', I64(8), 32)
    cls = lambda st: z3.Select(c.arr(made, st), I64(0))

    def make(ex, st, a, i):
        n = re.search(r'make_unique<(\w+)XmlCommand', i['dem'])
        n = n.group(1) if n else '?'
        ex.used_contracts.add('make_unique')
        ex.store(st, Ptr(made, 0), I32(classes.index(n) if n in classes else 0), 'i32', 4)
        ex.store(st, int_to_ptr(a[0]), Ptr(c.ex.new_region(n, 8, []), 0), 'ptr', 8)
    ex.patterns.append((re.compile(r'std::make_unique<\w+XmlCommand'), make))
    ex.patterns.append((re.compile(r'std::unique_ptr<\w*XmlCommand'), lambda ex, st, a, i: None))
    out = ex.new_region('result', 8, [])
    st, r = c.run('XmlRpcProcessor::CreateCommand', [Ptr(out, 0), Ptr(p, 0), Ptr(name, 0)])
    lvl = bv(c.get(p, 'm_userAccess'), 32)
    text = c.text_id(Ptr(name, 0))
    lit = lambda s: I64(c._lits.setdefault(s, len(c._lits)))
    c.assume(lvl >= 0, lvl <= 2)
    denied = Or(And(lvl == ADD, text != lit('append'), text != lit('appendurl'), text != lit('version')), And(lvl == RESTRICTED, text == lit('saveconfig')))
    want = I32(1)
    for m, k in COMMANDS.items():
        want = z3.If(text == lit(m), I32(classes.index(k)), want)
    c.ensure(st, 'add-users only add, restricted users do not change the configuration; for others the command of the name', cls(st) == z3.If(denied, I32(1), want))


@P.unit('authorised-ip', fn='WebProcessor::IsAuthorizedIp')
def ipcheck(c):
    ex = c.ex
    w = Access(c, ['authorizedIp'])
    p, con = c.obj('WebProcessor', 'request'), c.obj('Connection', 'connection')
    c.put(p, 'm_connection', Ptr(con, 0))
    addr, masks = c.cstr('address'), c.buffer('masks', I64(1 << 20))
    n, some = c.var('masks_count', 64), c.var('some_mask', 64)
    M = z3.Array('mask_matches', z3.BitVecSort(64), z3.BitVecSort(1))
    ghost = c.buffer('cursor', I64(16), 64)
    g = lambda i, st=None: z3.Select(c.arr(ghost, st), I64(i))
    c.assume(z3.ULT(n, 1 << 20), g(0) == 0, z3.ULT(some, n))
    c.contract('Connection::GetRemoteAddr', lambda ex, st, a, i: Ptr(addr, 0))

    def tokens(ex, st, a, i):
        ex.oblige(st, 'post', 'the masks of the option are used', And(*[B(x[1] is w.texts['authorizedIp']) for x in int_to_ptr(a[1]).alts]), where='Tokenizer')

    def nxt(ex, st, a, i):
        k = g(0, st)
        ex.store(st, Ptr(ghost, 0), z3.If(z3.ULT(k, n), k + 1, k), 'i64', 8)
        return Ptr([(Not(z3.ULT(k, n)), NULL, 0, None), (z3.ULT(k, n), masks, k, None)])

    def mask(ex, st, a, i):
        q = [x for x in int_to_ptr(a[1]).alts if x[1] is masks]
        ex.store(st, Ptr(ghost, 8), bv(q[0][2], 64), 'i64', 8)

    def match(ex, st, a, i):
        ex.oblige(st, 'post', 'the address of the client is compared', And(*[B(x[1] is addr) for x in int_to_ptr(a[1]).alts]), where='WildMask::Match')
        return z3.Select(M, g(1, st)) == 1
    for f, h in (('Tokenizer::Tokenizer', tokens), ('Tokenizer::Next', nxt), ('WildMask::WildMask', mask), ('WildMask::Match', match)):
        c.contract(f, h)
    for f in ('Tokenizer::~Tokenizer', 'WildMask::~WildMask'):
        c.contract(f, lambda ex, st, a, i: None)

    def inv(v):
        return [(('none so far',), lambda w: And(z3.ULE(g(0, w.st), n), Implies(z3.ULT(some, g(0, w.st)), z3.Select(M, some) == 0)))]
    ex.loop_inv.append(inv)
    st, r = c.run('WebProcessor::IsAuthorizedIp', [Ptr(p, 0), Ptr(addr, 0)])
    c.ensure(st, 'authorised if a mask matches', Implies(z3.Select(M, some) == 1, B(r)))
    c.ensure(st, 'authorised only if a mask matches', Implies(B(r), And(g(0, st) != 0, z3.ULE(g(0, st), n), z3.Select(M, g(0, st) - 1) == 1)))


@P.unit('gate', fn='WebProcessor::Execute')
def gate(c):
    ex = c.ex
    w = Access(c, [])
    p, con = c.obj('WebProcessor', 'request'), c.obj('Connection', 'connection')
    c.put(p, 'm_connection', Ptr(con, 0))
    ok, rpc, got = ex.freshb('credentials'), ex.freshb('rpc_request'), ex.freshb('received')
    url, ghost = c.cstr('url'), c.buffer('served', I64(8), 32)
    served = lambda st=None: z3.Select(c.arr(ghost, st), I64(0))
    c.assume(served() == 0)

    def headers(ex, st, a, i):
        for f in ('m_userAccess',):
            ex.oblige(st, 'post', 'no access level of an earlier request', bv(c.get(p, f, st), 32) == CONTROL, where='ParseHeaders')
        a0 = ex.load(st, Ptr(p, ex.off('WebProcessor', 'm_authInfo')), 'i8', 1)
        t0 = ex.load(st, Ptr(p, ex.off('WebProcessor', 'm_authToken')), 'i8', 1)
        ex.oblige(st, 'post', 'no credentials of an earlier request', And(bv(a0, 8) == 0, bv(t0, 8) == 0), where='ParseHeaders')
        c.put(p, 'm_contentLen', length, st)

    length = c.var('length', 32)
    lvl = c.var('level', 32)

    def cred(ex, st, a, i):
        c.put(p, 'm_userAccess', lvl, st)
        return ok

    def dispatch(ex, st, a, i):
        ex.oblige(st, 'post', 'programming interface and pages only for authorised users (pages also with a login form)',
                  Or(ok, And(c.truth(c.get(w.opt, 'm_formAuth')), Not(rpc))), where='Dispatch')
        ex.oblige(st, 'post', 'the request is served with the access level of its user', And(bv(c.get(p, 'm_userAccess', st), 32) == lvl, c.truth(c.get(p, 'm_authorized', st)) == ok, c.truth(c.get(p, 'm_rpcRequest', st)) == rpc), where='Dispatch')
        ex.store(st, Ptr(ghost, 0), served(st) + 1, 'i32', 4)
    for f, h in (('WebProcessor::ParseHeaders', headers), ('WebProcessor::CheckCredentials', cred), ('WebProcessor::Dispatch', dispatch), ('XmlRpcProcessor::IsRpcRequest', lambda ex, st, a, i: rpc),
                 ('Connection::Recv', lambda ex, st, a, i: got), ('CString::operator char*', lambda ex, st, a, i: Ptr(url, 0)), ('CString::Reserve', lambda ex, st, a, i: None), ('CString::operator[]', lambda ex, st, a, i: Ptr(body, bv(a[1], 64)))):
        c.contract(f, h)
    body = c.buffer('body', I64(1 << 33))
    for f in ('SendOptionsResponse', 'ParseUrl', 'SendAuthResponse'):
        c.contract('WebProcessor::' + f, lambda ex, st, a, i: None)
    c.contract('Connection::GetRemoteAddr', lambda ex, st, a, i: NULLPTR)
    c.contract('CString::operator char*', lambda ex, st, a, i: Ptr(body, 0))
    meth = bv(c.get(p, 'm_httpMethod'), 32)
    c.assume(meth >= 0, meth <= 2)
    st, r = c.run('WebProcessor::Execute', [Ptr(p, 0)])
    c.ensure(st, 'a permitted request is served', Implies(And(ok, Or(meth == 1, And(meth == 0, length > 0, got))), served(st) == 1))


@P.unit('pages', fn='WebProcessor::Dispatch')
def pages(c):
    """no url with '..' and no url with unusual characters reaches the file system; the user's access level reaches the interface"""
    ex = c.ex
    w = Access(c, ['webDir'])
    p, url = c.obj('WebProcessor', 'request'), c.cstr('url')
    p.ptr_init[ex.off('WebProcessor', 'm_url')] = Ptr(url, 0)
    c.compares_text('strncmp')
    c.contract('strchr', lambda ex, st, a, i: Ptr([(q, NULL, 0, None), (Not(q), url, 0, None)]))
    q = ex.freshb('no_question_mark')
    at = lambda k, st=None: z3.Select(c.arr(url, st), k)

    def file(ex, st, a, i):
        okc = lambda x: Or(And(x >= 48, x <= 57), And(x >= 65, x <= 90), And(x >= 97, x <= 122), *[x == ord(y) for y in '.-+?_/'])
        k = c.var('position', 64)
        ex.oblige(st, 'post', 'only plain characters', Implies(z3.ULT(k, url.len), okc(at(k, st))), where='serving a file')
        ex.oblige(st, 'post', 'no parent directories', Implies(And(z3.ULT(k, url.len), at(k, st) == 46), at(k + 1, st) != 46), where='serving a file')
        ex.oblige(st, 'post', 'by GET and not an rpc request', And(bv(c.get(p, 'm_httpMethod', st), 32) == 1, Not(c.truth(c.get(p, 'm_rpcRequest', st)))), where='serving a file')
    pos = c.var('position', 64)

    def inv(v):
        r = []
        for x, cx, ent in v.ptrs(url):
            okc = lambda x: Or(And(x >= 48, x <= 57), And(x >= 65, x <= 90), And(x >= 97, x <= 122), *[x == ord(y) for y in '.-+?_/'])
            o = lambda w, x=x: bv(int_to_ptr(w.cur(x)).alts[0][2], 64)
            r.append((('checked', x.key), lambda w, o=o: And(z3.ULE(o(w), url.len), Implies(z3.ULT(pos, o(w)), And(okc(at(pos)), Implies(at(pos) == 46, at(pos + 1) != 46))))))
        return r
    ex.loop_inv.append(inv)
    for f in ('WebProcessor::SendSingleFileResponse', 'WebProcessor::SendMultiFileResponse'):
        c.contract(f, file)
    for f in ('SendErrorResponse', 'SendBodyResponse'):
        c.contract('WebProcessor::' + f, lambda ex, st, a, i: None)
    c.contract('XmlRpcProcessor::XmlRpcProcessor', lambda ex, st, a, i: None)
    c.contract('XmlRpcProcessor::~XmlRpcProcessor', lambda ex, st, a, i: None)
    c.contract('XmlRpcProcessor::SetUrl', lambda ex, st, a, i: None)
    c.contract('XmlRpcProcessor::GetResponse', lambda ex, st, a, i: Ptr(url, 0))

    def execute(ex, st, a, i):
        pr = int_to_ptr(a[0]).alts[0][1]
        f = lambda x: bv(ex.load(st, Ptr(pr, ex.off('XmlRpcProcessor', x)), 'i32', 4), 32)
        ex.oblige(st, 'post', 'the interface knows the access level and the method', And(f('m_userAccess') == bv(c.get(p, 'm_userAccess'), 32), (f('m_httpMethod') == 1) == (bv(c.get(p, 'm_httpMethod'), 32) == 1)), where='rpc request')
    c.contract('XmlRpcProcessor::Execute', execute)
    st, r = c.run('WebProcessor::Dispatch', [Ptr(p, 0)])
    c.ensure(st, 'reached', True)


def command(c, st0=None):
    """a command object whose virtual functions are contracts"""
    ex = c.ex
    cmd = c.obj('XmlCommand', 'command')
    vt = ex.new_region('vtable', 80, [])
    cmd.ptr_init[0] = Ptr(vt, 0)
    names = ['~', '~', 'Execute', 'IsSafeMethod', 'IsError']
    for k, n in enumerate(names):
        vt.ptr_init[8 * k] = Ptr(vc.Region('command.' + n, 0, kind='func'), 0)
    return cmd


def rpc(c, post=True):
    ex = c.ex
    Access(c, [])
    p, cmd = c.obj('XmlRpcProcessor', 'processor'), command(c)
    lvl = bv(c.get(p, 'm_userAccess'), 32)
    made, safe, err = c.freshcmd if hasattr(c, 'freshcmd') else None, ex.freshb('safe'), ex.freshb('is_error')
    proto, meth = bv(c.get(p, 'm_protocol'), 32), bv(c.get(p, 'm_httpMethod'), 32)
    c.assume(proto >= 1, proto <= 3, meth >= 0, meth <= 1)

    def create(ex, st, a, i):
        ex.store(st, int_to_ptr(a[0]), Ptr(cmd, 0), 'ptr', 8)
        for f in ('m_userAccess', 'm_httpMethod', 'm_protocol'):
            c.put(cmd, f, ex.fresh('unset', 32), st)
    f = lambda x, st: bv(c.get(cmd, x, st), 32)
    runs = c.buffer('executions', I64(8), 32)
    n = lambda st=None: z3.Select(c.arr(runs, st), I64(0))
    c.assume(n() == 0)

    def execute(ex, st, a, i):
        for x, want in (('m_userAccess', lvl), ('m_httpMethod', meth), ('m_protocol', proto)):
            ex.oblige(st, 'post', 'the command knows who calls it and how: ' + x, f(x, st) == want, where='command')
        ex.oblige(st, 'post', 'a method that changes something is not executed by a plain GET', Or(safe, meth == 0, proto == 3, err), where='command')
        ex.store(st, Ptr(runs, 0), n(st) + 1, 'i32', 4)
    c.contract('XmlRpcProcessor::CreateCommand', create)
    c.contract('command.Execute', execute)
    c.contract('command.IsSafeMethod', lambda ex, st, a, i: safe)
    c.contract('command.IsError', lambda ex, st, a, i: err)
    c.contract('command.~', lambda ex, st, a, i: None)
    ex.patterns.append((re.compile(r'~unique_ptr\('), lambda ex, st, a, i: None))
    ex.patterns.append((re.compile(r'^std::unique_ptr<XmlCommand.*::operator->'), lambda ex, st, a, i: Ptr(cmd, 0)))
    for x in ('XmlCommand::PrepareParams', 'XmlCommand::SetRequest', 'XmlRpcProcessor::BuildResponse', 'XmlRpcProcessor::BuildErrorResponse', 'StringBuilder::StringBuilder', 'StringBuilder::~StringBuilder',
              'StringBuilder::Append'):
        c.contract(x, lambda ex, st, a, i: None)
    text = c.cstr('text')
    for x in ('XmlCommand::GetResponse', 'XmlCommand::GetCallbackFunc', 'StringBuilder::operator char const*', 'StringBuilder::operator const char*'):
        c.contract(x, lambda ex, st, a, i: Ptr(text, 0))
    c.contract('XmlCommand::GetFault', lambda ex, st, a, i: ex.freshb('fault'))
    return p, n, safe, err, proto, meth


@P.unit('call', fn='XmlRpcProcessor::Dispatch')
def call(c):
    ex = c.ex
    p, n, safe, err, proto, meth = rpc(c)
    url, req = c.cstr('url'), c.cstr('request')
    c.contract('CString::operator char*', lambda ex, st, a, i: Ptr(url, 0))
    p.ptr_init[ex.off('XmlRpcProcessor', 'm_request')] = Ptr(req, 0)
    c.assume(url.len != 0)
    multi = ex.freshb('multicall')
    for x in ('BString<100>::BString', 'BString<100>::Set'):
        c.contract(x, lambda ex, st, a, i: None)
    c.contract('BString<100>::operator char*', lambda ex, st, a, i: Ptr(req, 0))
    c.contract('WebUtil::XmlParseTagValue', lambda ex, st, a, i: ex.freshb('found'))
    c.contract('WebUtil::JsonFindField', lambda ex, st, a, i: Ptr([(found, NULL, 0, None), (Not(found), req, 0, None)]))
    found = ex.freshb('not_found')
    c.contract('strcasecmp', lambda ex, st, a, i: z3.If(multi, I32(0), I32(1)))
    c.contract('XmlRpcProcessor::MutliCall', lambda ex, st, a, i: ex.oblige(st, 'post', 'several calls at once only by POST', meth == 0, where='system.multicall'))
    st, r = c.run('XmlRpcProcessor::Dispatch', [Ptr(p, 0)])
    c.ensure(st, 'the command is executed if permitted', Implies(And(Not(multi), Or(safe, meth == 0, proto == 3)), n(st) == 1))


@P.unit('multicall', fn='XmlRpcProcessor::MutliCall')
def multicall(c):
    ex = c.ex
    p, n, safe, err, proto, meth = rpc(c)
    req = c.cstr('request')
    p.ptr_init[ex.off('XmlRpcProcessor', 'm_request')] = Ptr(req, 0)
    c.assume(meth == 0)

    def strstr(ex, st, a, i):
        k, none = ex.fresh('hit', 64), ex.freshb('no_hit')
        o = [bv(o, 64) for g, r, o, _ in int_to_ptr(a[0]).alts if r is req]
        n = len(const_str(ex, st, a[1]))
        ex.oblige(st, 'post', 'searched within the request', z3.ULE(o[0], req.len), where='strstr')
        ex.assume(None, Implies(Not(none), And(z3.ULE(o[0], k), z3.ULE(k, req.len), z3.UGE(req.len - k, n))))
        return Ptr([(none, NULL, 0, None), (Not(none), req, k, None)])
    c.contract('strstr', strstr)

    def inv(v):
        r = []
        for x in v.vars:
            try:
                here = x.ptr and all(q in (req, NULL) for _, q, _, _ in int_to_ptr(v.cur(x)).alts)
            except (Inconclusive, KeyError):
                continue
            for n in (0, 9) if here else ():
                r.append((('within the request', x.key, n), lambda w, x=x, n=n: And(*[Implies(B(g), And(z3.ULE(bv(o, 64), req.len), z3.UGE(req.len - bv(o, 64), n)))
                                                                                      for g, q, o, _ in int_to_ptr(w.cur(x)).alts if q is req])))
        return r
    ex.loop_inv.append(inv)
    c.contract('WebUtil::XmlParseTagValue', lambda ex, st, a, i: ex.freshb('found'))
    c.contract('strncmp', lambda ex, st, a, i: ex.fresh('cmp', 32))
    from models import const_str
    st, r = c.run('XmlRpcProcessor::MutliCall', [Ptr(p, 0)])
    c.ensure(st, 'reached', True)


for name, fn in (('config', 'ConfigXmlCommand::Execute'), ('loadconfig', 'LoadConfigXmlCommand::Execute')):
    @P.unit('masking-' + name, fn=fn)
    def masking(c, fn=fn):
        """the value of a restricted option is never part of an answer to a restricted user"""
        ex = c.ex
        w = Access(c, [])
        cmd = c.obj(fn.split('::')[0], 'command')
        lvl = bv(c.get(cmd, 'm_userAccess'), 32)
        ents = c.family('Options::OptEntry', 'options')
        secret = z3.Array('is_restricted', z3.BitVecSort(64), z3.BitVecSort(1))
        n = c.var('option_count', 64)
        c.assume(z3.ULT(n, 1 << 20))
        c.deque('Options::OptEntry', lambda ex, st, q: n, lambda ex, st, q, i: ex.fam_ptr(ents, i + 1))
        values = c.buffer('values', I64(1 << 30))
        idx = lambda x: ex.ptr_idx(int_to_ptr(x), ents)
        c.contract('Options::OptEntry::Restricted', lambda ex, st, a, i: z3.Select(secret, idx(a[0])) == 1)
        c.contract('Options::OptEntry::GetValue', lambda ex, st, a, i: Ptr(values, idx(a[0])))
        nm = c.cstr('name')
        c.contract('Options::OptEntry::GetName', lambda ex, st, a, i: Ptr(nm, 0))

        def encode(ex, st, a, i):
            for g, r, o, _ in int_to_ptr(a[2]).alts:
                if r is values:
                    ex.oblige(st, 'post', 'restricted users do not see restricted options', Implies(g, Not(And(lvl == RESTRICTED, z3.Select(secret, bv(o, 64)) == 1))), where='EncodeStr')
                elif r is not nm:
                    ex.oblige(st, 'post', 'other users see all options', Implies(g, lvl == RESTRICTED), where='EncodeStr')
        c.contract('XmlCommand::EncodeStr', encode)
        for x in ('XmlCommand::AppendResponse', 'XmlCommand::AppendCondResponse', 'XmlCommand::AppendFmtResponse', 'XmlCommand::BuildErrorResponse', 'CString::~CString', 'CString::CString', 'Options::OptEntries::OptEntries'):
            c.contract(x, lambda ex, st, a, i: None)
        c.contract('CString::operator*', lambda ex, st, a, i: Ptr(nm, 0))
        c.contract('XmlCommand::IsJson', lambda ex, st, a, i: json)
        json = ex.freshb('json')
        c.contract('ScriptConfig::LoadConfig', lambda ex, st, a, i: ex.freshb('loaded'))
        ex.patterns.append((re.compile(r'~deque\(|~GuardedPtr\(|~Guarded'), lambda ex, st, a, i: None))
        c.contract('Options::GuardOptEntries', lambda ex, st, a, i: None)
        ex.patterns.append((re.compile(r'^GuardedPtr<Options::OptEntries>::'), lambda ex, st, a, i: Ptr(dq, 0)))
        dq = ex.new_region('entries', 80, [])
        st, r = c.run(fn, [Ptr(cmd, 0)])
        c.ensure(st, 'reached', True)


@P.unit('restricted-options', fn='Options::OptEntry::Restricted')
def restricted(c):
    ex = c.ex
    e, name = c.obj('Options::OptEntry', 'option'), c.cstr('name', 1000)
    e.ptr_init[ex.off('Options::OptEntry', 'm_name')] = Ptr(name, 0)
    has, seen = {}, []
    c.compares_text('strcasecmp')
    lower = c.cstr('lower', 1000)
    c.contract('BString<1024>::BString', lambda ex, st, a, i: None)
    c.contract('BString<1024>::operator char*', lambda ex, st, a, i: Ptr(lower, 0))
    c.contract('tolower', lambda ex, st, a, i: ex.fresh('lower', 32))
    from models import const_str

    def strstr(ex, st, a, i):
        lit = const_str(ex, st, a[1]).decode()
        b = has.setdefault(lit, ex.freshb('contains_' + lit))
        where = int_to_ptr(a[0]).alts[0][1]
        if where is not lower and where is not name:
            raise Inconclusive('searched in another text')
        ex.oblige(st, 'post', f'{lit} is searched whatever its case', B(where is lower), where='strstr')
        return Ptr([(Not(b), NULL, 0, None), (b, where, 0, None)])

    def strchr(ex, st, a, i):
        b = has.setdefault(':', ex.freshb('contains_colon'))
        if a[1] != 58:
            raise Inconclusive('another strchr')
        return Ptr([(Not(b), NULL, 0, None), (b, name, 0, None)])
    c.contract('strstr', strstr)
    c.contract('strchr', strchr)
    st, r = c.run('Options::OptEntry::Restricted', [Ptr(e, 0)])
    lit = lambda s: I64(c._lits.setdefault(s, len(c._lits)))
    text = c.text_id(Ptr(name, 0))
    opts = ['ControlIp', 'ControlPort', 'FormAuth', 'SecureControl', 'SecurePort', 'SecureCert', 'SecureKey', 'CertStore', 'CertCheck', 'AuthorizedIP', 'DaemonUsername', 'UMask']
    c.ensure(st, 'user names, passwords, options of scripts and of the access to the program', B(r) == Or(*[has.setdefault(x, z3.BoolVal(False)) for x in ('username', 'password', ':')], *[text == lit(o.lower()) for o in opts]))
