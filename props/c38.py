"""C38 addresses"""
from props import _tx, _script
PRELOAD = ['bitcoin', 'bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.key', 'bitcoin.base58', 'bitcoin.wallet']
BOUNDS = 'all three networks, every 20-byte hash and version byte, every public key of 0..65 bytes, every 32-byte secret; output scripts: the standard forms with all hashes/keys and all four kinds of push, the same forms with any one framing byte replaced by any value, removed or added, and every script of up to 1 byte (thorough 2). The base conversion is replaced by a stand-in (it is decided in C37) and the elliptic-curve library by an arbitrary validity predicate'
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 are ideal injective functions', 'public key validity is an arbitrary predicate standing for OpenSSL']
NETS = {'mainnet': (0, 5, 128), 'testnet': (111, 196, 239), 'regtest': (111, 196, 239)}

def net(env, name):
    B = env.mod('bitcoin'); C = env.mod('bitcoin.core')
    env.patch(B, 'params', B.params); env.patch(C, 'coreparams', C.coreparams)
    B.SelectParams(name)

def texts(env):
    """replace the base conversion by an arbitrary injective one"""
    B = env.mod('bitcoin.base58')
    seen = []
    def enc(b): seen.append(bytes(b)); return 'T%d' % (len(seen) - 1)
    env.patch(B, 'encode', enc)
    env.patch(B, 'decode', lambda s: seen[int(s[1:])])
    return seen

def rmd(b): 
    import hashlib
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()

def same(env, a, cls, h, v):
    return env.land(type(a) is cls, env.eq(bytes(a), h), env.eq(a.nVersion, v))

def address(env, name, p2sh):
    W = env.mod('bitcoin.wallet')
    net(env, name); seen = texts(env)
    ver = NETS[name][1 if p2sh else 0]
    cls = W.P2SHBitcoinAddress if p2sh else W.P2PKHBitcoinAddress
    h = env.bytes('h', 20)
    for k, r in enumerate([env.call(W.CBitcoinAddress.from_bytes, h, ver), env.call(cls.from_bytes, h, ver), env.call(cls.from_bytes, h)]):
        env.check(r.ok and same(env, r.value, cls, h, ver), 'an address %d' % k)
        a = r.value
        s = a.to_scriptPubKey()
        env.check(env.eq(bytes(s), b'\xa9\x14' + h + b'\x87' if p2sh else b'\x76\xa9\x14' + h + b'\x88\xac'), 'its output script')
        for c in (W.CBitcoinAddress, cls):
            q = env.call(c.from_scriptPubKey, s)
            env.check(q.ok and same(env, q.value, cls, h, ver), 'the same address')
        q = env.call((W.P2PKHBitcoinAddress if p2sh else W.P2SHBitcoinAddress).from_scriptPubKey, s)
        env.check(q.raised(W.CBitcoinAddressError), 'not an address of the other kind')
    t = str(a)
    env.check(env.eq(seen[-1], bytes([ver]) + h + _tx.sha2(bytes([ver]) + h)[:4]), 'text')
    for c in (W.CBitcoinAddress, cls):
        q = env.call(c, t)
        env.check(q.ok and same(env, q.value, cls, h, ver), 'from text')
    q = env.call(W.P2PKHBitcoinAddress if p2sh else W.P2SHBitcoinAddress, t)
    env.check(q.raised(ValueError) or q.raised(W.CBitcoinAddressError), 'the other class refuses the text')
    # on every other network
    for other in ('mainnet', 'testnet', 'regtest'):
        if NETS[other] == NETS[name]: continue
        env.mod('bitcoin').SelectParams(other)
        q = env.call(W.CBitcoinAddress, t)
        env.check(q.raised(W.CBitcoinAddressError) and q.raised(env.mod('bitcoin.base58').Base58Error), 'another network')
        for c in (W.P2SHBitcoinAddress, W.P2PKHBitcoinAddress):
            env.check(env.call(c, t).exc is not None, 'another network')
    env.reach('done')

def version(env, name):
    W = env.mod('bitcoin.wallet'); B = env.mod('bitcoin.base58')
    net(env, name)
    h = env.bytes('h', 20); v = env.int('v', 0, 255)
    pk, sh, sec = NETS[name]
    payload = bytes([v]) + h
    k = payload + _tx.sha2(payload)[:4]
    env.patch(B, 'decode', lambda s: k)
    for r in (env.call(W.CBitcoinAddress.from_bytes, h, v), env.call(W.CBitcoinAddress, 'T')):
        env.check(env.iff(r.ok, env.lor(v == pk, v == sh)), 'exactly the two prefixes')
        if r.ok:
            if v == pk: env.check(type(r.value) is W.P2PKHBitcoinAddress, 'kind')
            else: env.check(type(r.value) is W.P2SHBitcoinAddress, 'kind')
        else: env.check(r.raised(W.CBitcoinAddressError) and r.raised(B.Base58Error), 'error')
    for c, want in ((W.P2SHBitcoinAddress, sh), (W.P2PKHBitcoinAddress, pk)):
        for q in (env.call(c.from_bytes, h, v), env.call(c, 'T')):
            env.check(env.iff(q.ok, v == want) and (q.ok or q.raised(ValueError) or q.raised(B.Base58Error)), 'exactly its own prefix')
    env.reach('address' if r.ok else 'refused')

def params(env):
    B = env.mod('bitcoin'); C = env.mod('bitcoin.core')
    for name in ('testnet', 'regtest', 'mainnet'):
        net(env, name)
        pk, sh, sec = NETS[name]
        env.check(B.params.BASE58_PREFIXES == {'PUBKEY_ADDR': pk, 'SCRIPT_ADDR': sh, 'SECRET_KEY': sec} and C.coreparams.NAME == name and B.params.NAME == name, 'parameters')
    r = env.call(B.SelectParams, 'other')
    env.check(r.raised(ValueError) and B.params.NAME == 'mainnet' and C.coreparams.NAME == 'mainnet', 'unknown network')
    env.reach('done')

# --- output scripts
def push(d, k):
    """a push of data with the k-th kind of push operation"""
    n = len(d)
    if k == 0: return bytes([n]) + d
    if k == 1: return b'\x4c' + bytes([n]) + d
    if k == 2: return b'\x4d' + bytes([n, 0]) + d
    return b'\x4e' + bytes([n, 0, 0, 0]) + d

def want(script, canonical=True, bare=True):
    """('sh', hash) / ('pk', hash) / None by the template definitions"""
    if len(script) == 23 and script[0] == 0xa9 and script[1] == 20 and script[22] == 0x87: return 'sh', script[2:22]
    return want_pk(script, canonical, bare)

def want_pk(script, anypush=True, bare=True):
    ops, part, good = _script.parse(script)
    if not good: return None
    o = []
    for k in range(len(ops)): 
        o.append((ops[k][0], ops[k][1], (ops[k + 1][2] if k + 1 < len(ops) else len(script)) - ops[k][2]))
    def direct(x): return anypush or x[2] == len(x[1]) + 1
    if len(o) == 5 and o[0][0] == 0x76 and o[1][0] == 0xa9 and o[2][1] is not None and len(o[2][1]) == 20 and o[3][0] == 0x88 and o[4][0] == 0xac:
        if direct(o[2]): return 'pk', o[2][1]
    if bare and len(o) == 2 and o[0][1] is not None and len(o[0][1]) in (33, 65) and o[1][0] == 0xac:
        if direct(o[0]): return 'pk', rmd(o[0][1])
    return None

def classify(env, s):
    W = env.mod('bitcoin.wallet')
    script = _tx.script(env, s)
    w = want(s)
    r = env.call(W.CBitcoinAddress.from_scriptPubKey, script)
    judge(env, r, w)
    judge(env, env.call(W.P2SHBitcoinAddress.from_scriptPubKey, script), w if w is not None and w[0] == 'sh' else None)
    for anypush in (True, False):
        for bare in (True, False):
            judge(env, env.call(W.P2PKHBitcoinAddress.from_scriptPubKey, script, accept_non_canonical_pushdata=anypush, accept_bare_checksig=bare), want_pk(s, anypush, bare))
    return w

def judge(env, r, w):
    W = env.mod('bitcoin.wallet')
    if w is None: env.check(r.raised(W.CBitcoinAddressError), 'refused'); return
    env.check(r.ok and same(env, r.value, W.P2SHBitcoinAddress if w[0] == 'sh' else W.P2PKHBitcoinAddress, w[1], NETS['mainnet'][1 if w[0] == 'sh' else 0]), 'the address of the script')

def small(env, n):
    env.check(classify(env, env.bytes('s', n)) is None, 'too short')
    env.reach('done')

def form(env, kind, k):
    net(env, 'mainnet')
    d = env.bytes('d', {'sh': 20, 'pk': 20, 'c': 33, 'u': 65, 'odd': 34}[kind])
    if kind == 'sh': s = b'\xa9' + push(d, k) + b'\x87'
    elif kind == 'pk': s = b'\x76\xa9' + push(d, k) + b'\x88\xac'
    else: s = push(d, k) + b'\xac'
    w = classify(env, s)
    env.check((w is None) == (kind == 'sh' and k != 0 or kind == 'odd'), 'reference')
    env.reach('done')

def uncompressed(env, k):
    """the key hash of the 65-byte form, apart from the recorded finding that the last byte of the key is left out"""
    W = env.mod('bitcoin.wallet'); net(env, 'mainnet')
    d = env.bytes('d', 65)
    r = env.call(W.CBitcoinAddress.from_scriptPubKey, _tx.script(env, push(d, k) + b'\xac'))
    env.check(r.ok and (same(env, r.value, W.P2PKHBitcoinAddress, rmd(d), 0) or same(env, r.value, W.P2PKHBitcoinAddress, rmd(d[:64]), 0)), 'hash of the key, or of the key without its last byte')
    r = env.call(W.P2PKHBitcoinAddress.from_scriptPubKey, _tx.script(env, push(d, k) + b'\xac'), accept_bare_checksig=False)
    env.check(r.raised(W.CBitcoinAddressError), 'bare key refused')
    env.reach('done')

def altered(env, kind, how, p):
    """a standard form with one framing byte arbitrary, removed, or added"""
    net(env, 'mainnet')
    d = bytes([0x51 + j % 8 for j in range({'sh': 20, 'pk': 20, 'c': 33}[kind])])
    pre, post = {'sh': (b'\xa9\x14', b'\x87'), 'pk': (b'\x76\xa9\x14', b'\x88\xac'), 'c': (b'\x21', b'\xac')}[kind]
    s = pre + d + post
    q = p if p < len(pre) else len(pre) + len(d) + p - len(pre)
    if how == 'replace': s = s[:q] + bytes([env.int('x', 0, 255)]) + s[q + 1:]
    elif how == 'remove': s = s[:q] + s[q + 1:]
    elif how == 'add': s = s[:q] + bytes([env.int('x', 0, 255)]) + s[q:]
    w = classify(env, s)
    env.reach('same' if w is not None else 'refused')

def nonbytes(env):
    W = env.mod('bitcoin.wallet'); net(env, 'mainnet')
    for v in (None, 5, 'text', [1], bytearray(33)):
        env.check(env.call(W.P2PKHBitcoinAddress.from_pubkey, v).raised(TypeError), 'type')
    env.reach('done')

# --- keys
def keys(env, compressed=None):
    K = env.mod('bitcoin.core.key')
    log = []
    class Key:
        def __init__(self): self.c = None; self.s = None; log.append(self)
        def set_pubkey(self, pub): return env.ite(env.oracle_bool('valid', bytes(pub)), 1, 0)
        def set_secretbytes(self, s): self.s = bytes(s)
        def set_compressed(self, c): self.c = c
        def get_pubkey(self): return b'\x02' + self.s if self.c else b'\x04' + self.s * 2
        def sign(self, h): return b'sig' + self.s + h
    env.patch(K, 'CECKey', Key)
    return log

def pubkey(env, n):
    W = env.mod('bitcoin.wallet'); K = env.mod('bitcoin.core.key')
    net(env, 'mainnet'); keys(env)
    pub = env.bytes('pub', n)
    good = env.oracle_bool('valid', pub)
    r = env.call(W.P2PKHBitcoinAddress.from_pubkey, pub)
    env.check(env.iff(r.ok, good) and (r.ok or r.raised(W.CBitcoinAddressError)), 'valid keys only')
    if r.ok: env.check(same(env, r.value, W.P2PKHBitcoinAddress, rmd(pub), 0), 'hash of the key')
    for x in (pub, K.CPubKey(pub)):
        a = env.call(W.P2PKHBitcoinAddress.from_pubkey, x, accept_invalid=True)
        env.check(a.ok and same(env, a.value, W.P2PKHBitcoinAddress, rmd(pub), 0), 'any key')
    b = env.call(W.P2PKHBitcoinAddress.from_pubkey, K.CPubKey(pub))
    env.check(env.iff(b.ok, good), 'valid keys only')
    c = K.CPubKey(pub)
    env.check(env.iff(c.is_fullyvalid, good) and c.is_valid == (n > 0) and c.is_compressed == (n == 33), 'key attributes')
    env.reach('ok' if r.ok else 'refused')

def redeem(env, n):
    W = env.mod('bitcoin.wallet'); net(env, 'mainnet')
    s = env.bytes('s', n)
    r = env.call(W.P2SHBitcoinAddress.from_redeemScript, _tx.script(env, s))
    env.check(r.ok and same(env, r.value, W.P2SHBitcoinAddress, rmd(s), 5), 'hash of the script')
    env.reach('done')

def secret(env, name, compressed):
    W = env.mod('bitcoin.wallet'); net(env, name); log = keys(env); seen = texts(env)
    s = env.bytes('s', 32); h = env.bytes('h', 32)
    ver = NETS[name][2]
    r = env.call(W.CBitcoinSecret.from_secret_bytes, s, compressed)
    env.check(r.ok and r.value.is_compressed == compressed and env.eq(r.value.nVersion, ver), 'made')
    env.check(env.eq(bytes(r.value), s + (b'\x01' if compressed else b'')), 'payload')
    t = str(r.value)
    q = env.call(W.CBitcoinSecret, t)
    env.check(q.ok and type(q.value) is W.CBitcoinSecret and env.eq(bytes(q.value), bytes(r.value)) and env.eq(q.value.nVersion, ver), 'round trip')
    want = b'\x02' + s if compressed else b'\x04' + s * 2
    for k in (r.value, q.value):
        env.check(k.is_compressed == compressed and env.eq(bytes(k.pub), want) and env.eq(k.sign(h), b'sig' + s + h), 'the key of the secret')
    for k in log: env.check(k.s is None or env.eq(k.s, s), 'secret')
    for other in ('mainnet', 'testnet'):
        if NETS[other] == NETS[name]: continue
        env.mod('bitcoin').SelectParams(other)
        env.check(env.call(W.CBitcoinSecret, t).raised(W.CBitcoinSecretError), 'another network')
    env.reach('done')

def secret_version(env, name, n):
    W = env.mod('bitcoin.wallet'); B = env.mod('bitcoin.base58'); net(env, name); keys(env)
    s = env.bytes('s', 32); v = env.int('v', 0, 255)
    payload = bytes([v]) + s + (b'\x01' if n == 33 else b'')
    k = payload + _tx.sha2(payload)[:4]
    env.patch(B, 'decode', lambda x: k)
    r = env.call(W.CBitcoinSecret, 'T')
    env.check(env.iff(r.ok, v == NETS[name][2]) and (r.ok or r.raised(W.CBitcoinSecretError) and r.raised(B.Base58Error)), 'exactly the secret prefix')
    if r.ok: env.check(r.value.is_compressed == (n == 33), 'flag')
    env.reach('ok' if r.ok else 'refused')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for name in NETS:
        for p in (False, True): cs.append(dict(name='address_%s_%d' % (name, p), fn='address', args=dict(name=name, p2sh=p), reach=['done']))
        cs.append(dict(name='version_' + name, fn='version', args=dict(name=name), reach=['address', 'refused']))
        for c in (False, True): cs.append(dict(name='secret_%s_%d' % (name, c), fn='secret', args=dict(name=name, compressed=c), reach=['done']))
        for n in (32, 33): cs.append(dict(name='secret_version_%s_%d' % (name, n), fn='secret_version', args=dict(name=name, n=n), reach=['ok', 'refused']))
    cs.append(dict(name='params', fn='params', args={}, reach=['done']))
    cs.append(dict(name='nonbytes', fn='nonbytes', args={}, reach=['done']))
    for n in range(0, 3 if T else 2): cs.append(dict(name='small_%d' % n, fn='small', args=dict(n=n), reach=['done'], weight=n))
    for kind in ('sh', 'pk', 'c', 'odd'):
        for k in range(4): cs.append(dict(name='form_%s_%d' % (kind, k), fn='form', args=dict(kind=kind, k=k), reach=['done']))
    for k in range(4): cs.append(dict(name='uncompressed_%d' % k, fn='uncompressed', args=dict(k=k), reach=['done']))
    cs.append(dict(name='form_u_exact', fn='form', args=dict(kind='u', k=0), reach=['done'], known='uncompressed-bare-key'))
    for kind, m in (('sh', 3), ('pk', 5), ('c', 2)):
        for p in range(m):
            cs.append(dict(name='replace_%s_%d' % (kind, p), fn='altered', args=dict(kind=kind, how='replace', p=p), reach=['same', 'refused']))
            cs.append(dict(name='remove_%s_%d' % (kind, p), fn='altered', args=dict(kind=kind, how='remove', p=p), reach=['refused']))
        for p in range(m + 1): cs.append(dict(name='add_%s_%d' % (kind, p), fn='altered', args=dict(kind=kind, how='add', p=p), reach=['refused']))
    for n in (0, 1, 32, 33, 34, 64, 65): cs.append(dict(name='pubkey_%d' % n, fn='pubkey', args=dict(n=n), reach=['ok', 'refused']))
    for n in (0, 1, 23, 75, 300): cs.append(dict(name='redeem_%d' % n, fn='redeem', args=dict(n=n), reach=['done']))
    return cs
