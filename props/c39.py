"""C39 protocol messages"""
from io import BytesIO
import socket
from props import _tx
PRELOAD = ['bitcoin', 'bitcoin.core', 'bitcoin.core.script', 'bitcoin.net', 'bitcoin.messages']
BOUNDS = 'every message type with all values of its fields: vectors of up to 2 entries (thorough 3), strings of up to 3 bytes (thorough 80), transactions with one input and output, blocks of up to one transaction; frames of every magic, command, length and checksum over bodies of 0..9 bytes (thorough 0..40); every truncation point; two consecutive frames'
ASSUMPTIONS = ['SHA-256 is an ideal injective function (the four checksum bytes may still collide)']
MAGIC = dict(MainParams=b'\xf9\xbe\xb4\xd9', TestNetParams=b'\x0b\x11\x09\x07', RegTestParams=b'\xfa\xbf\xb5\xda')
le = _tx.le; vint = _tx.vint
def be(v, n): return bytes([(v >> (8 * (n - 1 - i))) & 0xff for i in range(n)])
def sle(v, n): return le(v & ((1 << (8 * n)) - 1), n)
I32 = (-2**31, 2**31 - 1); I64 = (-2**63, 2**63 - 1); U32 = (0, 2**32 - 1); U64 = (0, 2**64 - 1)

def frame(cmd, body, magic=MAGIC['MainParams']):
    return magic + cmd + bytes(12 - len(cmd)) + le(len(body), 4) + _tx.sha2(body)[:4] + body

class Msgs:
    """for each type: the message, its body in the wire format, and a comparison"""
    def __init__(self, env, p=''):
        self.env = env; self.p = p; self.M = env.mod('bitcoin.messages'); self.N = env.mod('bitcoin.net'); self.C = env.mod('bitcoin.core')
    def i(self, name, r): return self.env.int(self.p + name, r[0], r[1])
    def b(self, name, n): return self.env.bytes(self.p + name, n)
    def address(self, k, time):
        a = self.N.CAddress()
        t = self.i('a%s.t' % k, U32) if time else None
        s = self.i('a%s.s' % k, U64); r = self.b('a%s.r' % k, 12); ip = self.b('a%s.ip' % k, 4); port = self.i('a%s.p' % k, (0, 65535))
        if time: a.nTime = t
        a.nServices = s; a.pchReserved = r; a.ip = socket.inet_ntoa(ip); a.port = port
        return a, (le(t, 4) if time else b'') + le(s, 8) + r + ip + be(port, 2)
    def addr_same(self, x, y, time):
        env = self.env
        return env.land(env.eq(x.nServices, y.nServices), env.eq(x.pchReserved, y.pchReserved), env.eq(socket.inet_aton(x.ip), socket.inet_aton(y.ip)), env.eq(x.port, y.port), env.eq(x.nTime, y.nTime) if time else True)
    def version(self, n):
        m = self.M.msg_version(); env = self.env
        m.nVersion = self.i('v', I32); env.assume(env.land(m.nVersion >= 209, env.lnot(m.nVersion == 10300)))
        m.nServices = self.i('s', U64); m.nTime = self.i('t', I64); m.nNonce = self.i('n', U64); m.strSubVer = self.b('sub', n); m.nStartingHeight = self.i('h', I32)
        m.addrTo, b1 = self.address('to', False); m.addrFrom, b2 = self.address('from', False)
        body = sle(m.nVersion, 4) + le(m.nServices, 8) + sle(m.nTime, 8) + b1 + b2 + le(m.nNonce, 8) + vint(n) + m.strSubVer + sle(m.nStartingHeight, 4)
        def same(q): return env.land(env.eq(q.nVersion, m.nVersion), env.eq(q.nServices, m.nServices), env.eq(q.nTime, m.nTime), self.addr_same(q.addrTo, m.addrTo, False), self.addr_same(q.addrFrom, m.addrFrom, False),
            env.eq(q.nNonce, m.nNonce), env.eq(q.strSubVer, m.strSubVer), env.eq(q.nStartingHeight, m.nStartingHeight))
        return m, body, same
    def verack(self, n): return self.M.msg_verack(), b'', lambda q: True
    def getaddr(self, n): return self.M.msg_getaddr(), b'', lambda q: True
    def mempool(self, n): return self.M.msg_mempool(), b'', lambda q: True
    def ping(self, n):
        m = self.M.msg_ping(); m.nonce = self.i('n', U64)
        return m, le(m.nonce, 8), lambda q: self.env.eq(q.nonce, m.nonce)
    def pong(self, n):
        m = self.M.msg_pong(nonce=self.i('n', U64))
        return m, le(m.nonce, 8), lambda q: self.env.eq(q.nonce, m.nonce)
    def addr(self, n):
        m = self.M.msg_addr(); body = vint(n)
        for k in range(n):
            a, b = self.address(k, True); m.addrs.append(a); body += b
        return m, body, lambda q: len(q.addrs) == n and self.env.land(*[self.addr_same(x, y, True) for x, y in zip(q.addrs, m.addrs)])
    def alert(self, n):
        m = self.M.msg_alert(); m.alert.vchMsg = self.b('m', n); m.alert.vchSig = self.b('g', n + 1)
        return m, vint(n) + m.alert.vchMsg + vint(n + 1) + m.alert.vchSig, lambda q: self.env.land(self.env.eq(q.alert.vchMsg, m.alert.vchMsg), self.env.eq(q.alert.vchSig, m.alert.vchSig))
    def _inv(self, m, n):
        body = vint(n)
        for k in range(n):
            v = self.N.CInv(); v.type = self.i('i%d.t' % k, I32); v.hash = self.b('i%d.h' % k, 32)
            m.inv.append(v); body += sle(v.type, 4) + v.hash
        return m, body, lambda q: len(q.inv) == n and self.env.land(*[self.env.land(self.env.eq(x.type, y.type), self.env.eq(x.hash, y.hash)) for x, y in zip(q.inv, m.inv)])
    def inv(self, n): return self._inv(self.M.msg_inv(), n)
    def getdata(self, n): return self._inv(self.M.msg_getdata(), n)
    def _loc(self, m, n):
        env = self.env
        m.locator.nVersion = self.i('v', I32); m.locator.vHave = [self.b('h%d' % k, 32) for k in range(n)]; m.hashstop = self.b('stop', 32)
        return m, sle(m.locator.nVersion, 4) + vint(n) + b''.join(m.locator.vHave) + m.hashstop, lambda q: len(q.locator.vHave) == n and env.land(env.eq(q.locator.nVersion, m.locator.nVersion), env.eq(list(q.locator.vHave), m.locator.vHave), env.eq(q.hashstop, m.hashstop))
    def getblocks(self, n): return self._loc(self.M.msg_getblocks(), n)
    def getheaders(self, n): return self._loc(self.M.msg_getheaders(), n)
    def _block(self, k, ntx):
        C = self.C
        f = dict(nVersion=self.i('b%d.v' % k, I32), hashPrevBlock=self.b('b%d.p' % k, 32), nTime=self.i('b%d.t' % k, U32), nBits=self.i('b%d.b' % k, U32), nNonce=self.i('b%d.n' % k, U32))
        txs = [_tx.tx(self.env, self.p + 'b%dt%d' % (k, j)) for j in range(ntx)]
        root = txs[0].GetHash() if txs else self.b('b%d.m' % k, 32)
        blk = C.CBlock(hashMerkleRoot=root, vtx=txs, **f)
        return blk, sle(f['nVersion'], 4) + f['hashPrevBlock'] + root + le(f['nTime'], 4) + le(f['nBits'], 4) + le(f['nNonce'], 4) + vint(ntx) + b''.join([_tx.ref_ser(t) for t in txs])
    def _block_same(self, x, y):
        env = self.env
        return len(x.vtx) == len(y.vtx) and env.land(*([env.eq(getattr(x, a), getattr(y, a)) for a in ('nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce')] + [_tx.same(env, a, b) for a, b in zip(x.vtx, y.vtx)]))
    def headers(self, n):
        m = self.M.msg_headers(); body = vint(n)
        for k in range(n):
            x, b = self._block(k, 0); m.headers.append(x); body += b
        return m, body, lambda q: len(q.headers) == n and self.env.land(*[self._block_same(x, y) for x, y in zip(q.headers, m.headers)])
    def block(self, n):
        m = self.M.msg_block(); m.block, body = self._block(0, n)
        return m, body, lambda q: self._block_same(q.block, m.block)
    def tx(self, n):
        m = self.M.msg_tx(); m.tx = _tx.tx(self.env, self.p + 't', nin=1, nout=n, slen=2, sslen=1)
        return m, _tx.ref_ser(m.tx), lambda q: _tx.same(self.env, q.tx, m.tx)

NAMES = ('version', 'verack', 'addr', 'alert', 'inv', 'getdata', 'getblocks', 'getheaders', 'headers', 'tx', 'block', 'getaddr', 'ping', 'pong', 'mempool')

def roundtrip(env, name, n):
    M = env.mod('bitcoin.messages'); B = env.mod('bitcoin')
    m, body, same = getattr(Msgs(env), name)(n)
    cls = getattr(M, 'msg_' + name)
    for net in sorted(MAGIC):
        want = frame(name.encode(), body, MAGIC[net]); par = getattr(B, net)()
        env.check(env.eq(m.to_bytes(par), want), 'frame on ' + net)
        f = BytesIO(want + b'rest')
        q = env.call(M.MsgSerializable.stream_deserialize, f, par)
        env.check(q.ok and type(q.value) is cls, 'type')
        env.check(same(q.value), 'fields')
        env.check(f.read() == b'rest', 'the rest of the stream')
        for other in sorted(MAGIC):
            if other != net: env.check(env.call(M.MsgSerializable.stream_deserialize, BytesIO(want), getattr(B, other)()).raised(ValueError), 'another network')
    want = frame(name.encode(), body)
    env.check(env.eq(m.to_bytes(), want), 'default network')
    f = BytesIO(); m.stream_serialize(f)
    env.check(env.eq(f.getvalue(), want) and env.eq(m.serialize(), want), 'serialized')
    for r in (env.call(cls.from_bytes, want), env.call(M.MsgSerializable.from_bytes, want), env.call(cls.deserialize, want)):
        env.check(r.ok and type(r.value) is cls and same(r.value), 'from bytes')
        env.check(env.eq(r.value.to_bytes(), want), 'again')
    env.check(cls.command == name.encode() and M.messagemap[cls.command] is cls, 'command')
    env.reach('done')

def truncated(env, name, n):
    """a frame cut anywhere"""
    M = env.mod('bitcoin.messages'); S = env.mod('bitcoin.core.serialize')
    m, body, same = getattr(Msgs(env), name)(n)
    w = frame(name.encode(), body)
    k = env.choice('cut', len(w))
    r = env.call(M.MsgSerializable.stream_deserialize, BytesIO(w[:k]))
    env.check(r.raised(S.SerializationError), 'refused')
    env.reach('header' if k < 24 else 'body')

def two(env, a, b):
    """consecutive frames"""
    M = env.mod('bitcoin.messages')
    m, b1, s1 = getattr(Msgs(env, 'x.'), a)(1)
    q, b2, s2 = getattr(Msgs(env, 'y.'), b)(1)
    f = BytesIO(); m.stream_serialize(f); q.stream_serialize(f)
    g = BytesIO(f.getvalue())
    x = env.call(M.MsgSerializable.stream_deserialize, g); y = env.call(M.MsgSerializable.stream_deserialize, g)
    env.check(x.ok and y.ok and type(x.value) is type(m) and type(y.value) is type(q), 'both')
    env.check(s1(x.value) and s2(y.value), 'fields')
    env.check(g.read() == b'', 'end')
    env.check(env.call(M.MsgSerializable.stream_deserialize, g).exc is not None, 'nothing more')
    env.reach('done')

def anyframe(env, cmd, n):
    """any header over a body of n arbitrary bytes"""
    M = env.mod('bitcoin.messages')
    magic = env.bytes('magic', 4); L = env.int('len', 0, 2**32 - 1); ck = env.bytes('ck', 4); body = env.bytes('body', n)
    c = cmd.encode() + bytes(12 - len(cmd))
    f = BytesIO(magic + c + le(L, 4) + ck + body)
    r = env.call(M.MsgSerializable.stream_deserialize, f)
    fits = L <= n
    if r.ok:
        env.check(fits, 'enough bytes')
        k = env.concrete(L)
        env.check(env.land(env.eq(magic, MAGIC['MainParams']), env.eq(ck, _tx.sha2(body[:k])[:4])), 'magic and checksum')
        if cmd in NAMES:
            env.check(type(r.value) is getattr(M, 'msg_' + cmd), 'type')
            if cmd in ('ping', 'pong'): env.check(k >= 8 and env.eq(le(r.value.nonce, 8), body[:8]), 'its fields')
        else: env.check(r.value is None, 'unknown command yields nothing')
        env.check(f.read() == body[k:], 'the stream stands after the frame')
        env.reach('message')
    else:
        env.check(env.land(r.name in ('ValueError', 'SerializationError', 'SerializationTruncationError', 'UnicodeDecodeError')), 'a refusal')
        if fits:
            k = env.concrete(L)
            bad = env.lor(env.lnot(env.eq(magic, MAGIC['MainParams'])), env.lnot(env.eq(ck, _tx.sha2(body[:k])[:4])))
            need = {'ping': 8, 'pong': 8, 'verack': 0, 'nosuch': 0}[cmd]
            env.check(env.lor(bad, k < need), 'refused only with a reason')
        env.reach('refused')

def command(env, n):
    """any command bytes in an otherwise good frame"""
    M = env.mod('bitcoin.messages')
    c = env.bytes('c', n) + bytes(12 - n)
    body = bytes(8)
    f = BytesIO(MAGIC['MainParams'] + c + le(8, 4) + _tx.sha2(body)[:4] + body)
    r = env.call(M.MsgSerializable.stream_deserialize, f)
    def isname(w): return env.eq(c[:len(w) + 1] if len(w) < 12 else c, w.encode() + b'\0')
    known = False
    for w in NAMES:
        if isname(w):
            known = True
            env.check(type(r.value) is getattr(M, 'msg_' + w) if r.ok else w in ('tx', 'block', 'version', 'getblocks', 'getheaders'), 'the type of the command')
    if not known: env.check(r.value is None if r.ok else r.raised(ValueError), 'no message from an unknown command')
    env.reach('known' if known else 'unknown')

def old_version(env, part):
    """version messages of old protocol versions carry fewer fields"""
    M = env.mod('bitcoin.messages')
    v = {'tiny': env.int('v', -2**31, 105) if part == 'tiny' else 0, 'mid': env.int('w', 106, 208) if part == 'mid' else 0, 'quirk': 10300}[part]
    h = Msgs(env)
    s = h.i('s', U64); t = h.i('t', I64); n = h.i('n', U64); sub = h.b('sub', 2); hh = h.i('h', I32)
    a, b1 = h.address('to', False); b, b2 = h.address('from', False)
    body = sle(v, 4) + le(s, 8) + sle(t, 8) + b1
    if part != 'tiny': body += b2 + le(n, 8) + b'\x02' + sub
    if part == 'quirk': body += sle(hh, 4)
    r = env.call(M.MsgSerializable.from_bytes, frame(b'version', body))
    env.check(r.ok and type(r.value) is M.msg_version, 'decodes')
    m = r.value
    env.check(env.land(env.eq(m.nVersion, 300 if part == 'quirk' else v), env.eq(m.nServices, s), env.eq(m.nTime, t), h.addr_same(m.addrTo, a, False)), 'common fields')
    if part == 'tiny': env.check(m.addrFrom is None and m.nNonce is None and m.strSubVer is None and m.nStartingHeight is None, 'absent')
    else:
        env.check(env.land(h.addr_same(m.addrFrom, b, False), env.eq(m.nNonce, n), env.eq(m.strSubVer, sub)), 'later fields')
        env.check(env.eq(m.nStartingHeight, hh) if part == 'quirk' else m.nStartingHeight is None, 'height')
    env.reach('done')

def unsigned_alert(env, n):
    N = env.mod('bitcoin.net')
    a = N.CUnsignedAlert()
    i = lambda k: env.int(k, *I32)
    a.nVersion = i('v'); a.nRelayUntil = env.int('r', *I64); a.nExpiration = env.int('e', *I64); a.nID = i('id'); a.nCancel = i('c')
    a.setCancel = [i('sc%d' % k) for k in range(n)]; a.nMinVer = i('min'); a.nMaxVer = i('max'); a.setSubVer = [env.bytes('sv%d' % k, k + 1) for k in range(n)]; a.nPriority = i('p')
    a.strComment = env.bytes('com', n); a.strStatusBar = env.bytes('bar', n + 1); a.strReserved = env.bytes('res', 2)
    want = (sle(a.nVersion, 4) + sle(a.nRelayUntil, 8) + sle(a.nExpiration, 8) + sle(a.nID, 4) + sle(a.nCancel, 4) + vint(n) + b''.join([sle(x, 4) for x in a.setCancel]) + sle(a.nMinVer, 4) + sle(a.nMaxVer, 4)
        + vint(n) + b''.join([vint(len(x)) + x for x in a.setSubVer]) + sle(a.nPriority, 4) + vint(n) + a.strComment + vint(n + 1) + a.strStatusBar + b'\x02' + a.strReserved)
    env.check(env.eq(a.serialize(), want), 'wire format')
    r = env.call(N.CUnsignedAlert.deserialize, want)
    env.check(r.ok, 'decodes')
    q = r.value
    for k in ('nVersion', 'nRelayUntil', 'nExpiration', 'nID', 'nCancel', 'nMinVer', 'nMaxVer', 'nPriority', 'strComment', 'strStatusBar', 'strReserved'): env.check(env.eq(getattr(q, k), getattr(a, k)), k)
    env.check(env.land(env.eq(list(q.setCancel), a.setCancel), env.eq(list(q.setSubVer), a.setSubVer)), 'vectors')
    c = env.choice('cut', len(want))
    env.check(env.call(N.CUnsignedAlert.deserialize, want[:c]).raised(env.mod('bitcoin.core.serialize').SerializationError), 'truncated')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    sizes = dict(version=(0, 3) + ((80,) if T else ()), verack=(0,), getaddr=(0,), mempool=(0,), ping=(0,), pong=(0,), alert=(0, 3) + ((80,) if T else ()), tx=(0, 1, 2), block=(0, 1) + ((2,) if T else ()), headers=(0, 1, 2))
    for name in NAMES:
        for n in sizes.get(name, (0, 1, 2, 3) if T else (0, 1, 2)):
            if name == 'block' and n == 2: continue
            cs.append(dict(name='roundtrip_%s_%d' % (name, n), fn='roundtrip', args=dict(name=name, n=n), reach=['done'], weight=3))
        n = {'tx': 1, 'block': 1}.get(name, 1)
        if name not in ('block',) or T: cs.append(dict(name='truncated_' + name, fn='truncated', args=dict(name=name, n=n), reach=['header'] + (['body'] if name not in ('verack', 'getaddr', 'mempool') else []), weight=5))
    for a, b in [('ping', 'verack'), ('verack', 'pong'), ('inv', 'tx'), ('addr', 'alert'), ('version', 'getblocks'), ('headers', 'ping')] + ([(x, y) for x in NAMES for y in NAMES if x < y] if T else []):
        nm = 'two_%s_%s' % (a, b)
        if not any(c['name'] == nm for c in cs): cs.append(dict(name=nm, fn='two', args=dict(a=a, b=b), reach=['done']))
    for cmd in ('ping', 'pong', 'verack', 'nosuch'):
        for n in (0, 1, 8, 9) + ((2, 7, 16, 40) if T else ()):
            cs.append(dict(name='anyframe_%s_%d' % (cmd, n), fn='anyframe', args=dict(cmd=cmd, n=n), reach=['refused'] + (['message'] if cmd in ('verack', 'nosuch') or n >= 8 else [])))
    for n in (2, 4, 7) + ((10, 11) if T else ()): cs.append(dict(name='command_%d' % n, fn='command', args=dict(n=n), reach=['known', 'unknown']))
    for p in ('tiny', 'mid', 'quirk'): cs.append(dict(name='old_version_' + p, fn='old_version', args=dict(part=p), reach=['done']))
    for n in (0, 1, 2): cs.append(dict(name='unsigned_alert_%d' % n, fn='unsigned_alert', args=dict(n=n), reach=['done']))
    return cs
