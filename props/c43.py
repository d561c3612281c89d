"""C43 elliptic-curve keys: the wrapper around OpenSSL, against a model of OpenSSL's interface.
The library is replaced by a stand-in that follows the documented interface and ctypes' conversion rules: pointers are
arbitrary 47-bit addresses, results go through the restype and errcheck which the module declared on the real
functions, and plain integers are passed as C ints."""
import ctypes, hashlib
from props import _tx
PRELOAD = ['bitcoin', 'bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.key', 'bitcoin.base58', 'bitcoin.wallet']
BOUNDS = 'every 32-byte secret (and every one of 0..31, 33 and 40 bytes, refused), every digest of 32 bytes (0, 31 and 33 refused), compressed and uncompressed, signatures of 8, 70, 71 and 72 bytes; every public key encoding of 0, 1, 2, 32..34, 64..66 bytes with an arbitrary validity predicate; every result (1, 0, -1) of verification, signing, multiplication and key agreement; every address (47 bits) that OpenSSL might place an object at'
ASSUMPTIONS = ['OpenSSL is modelled by its interface: points and signatures are ideal injective functions of the secret and the digest, a signature verifies exactly for its own key and digest, other verdicts are arbitrary',
               'the curve arithmetic itself is not encoded']
KEY, GROUP, POINT, BN, CTX = 'EC_KEY', 'EC_GROUP', 'EC_POINT', 'BIGNUM', 'BN_CTX'

class Box:
    """a C variable"""
    _as_parameter_ = None
    def __init__(self, value=None): self.value = value
    def __eq__(self, other): return self is other
    def __hash__(self): return id(self)
class VoidP(Box): pass
class UInt32(Box):
    def __init__(self, value=0): self.value = value
class Buf:
    def __init__(self, init, size=None):
        if isinstance(init, int): self.raw = b'\0' * init
        else: self.raw = bytes(init) + b'\0' * (1 if size is None else size - len(init))
    def __len__(self): return len(self.raw)
class Ref:
    def __init__(self, to, off=0): self.to = to
class Fake: pass

def h(tag, *parts):
    m = tag
    for p in parts: m = m + bytes(p)
    return hashlib.sha256(m).digest()

def null(a): return a is None or isinstance(a, int) and a == 0

class CTypes:
    c_void_p = VoidP; c_uint32 = c_uint = c_int = c_size_t = UInt32
    byref = pointer = Ref; create_string_buffer = Buf
    def __init__(self, env): self._env = env
    def __getattr__(self, name):
        if not name.startswith('_'): self._env.unmodelled('ctypes.' + name)
        raise AttributeError(name)

class Lib:
    def __init__(self, env, real):
        self._env = env; self._real = real; self._objs = []; self._secrets = []; self._sigs = []
        self._n = 0; self.fail = None; self.verdict = None; self.siglen = 71
        self.asked = []
    # -- memory
    def _new(self, kind, **kw):
        env = self._env
        o = Fake(); o.kind = kind; o.alive = True; o.__dict__.update(kw)
        o.addr = env.int('at%d' % self._n, 1, 2 ** 47 - 1); self._n += 1
        for p in self._objs: env.assume(p.addr != o.addr)
        self._objs.append(o)
        return o
    def _at(self, a, kind):
        env = self._env
        known = [o for o in self._objs if o.kind == kind and o.alive]
        for o in known:
            if a is o.addr: return o
        env.check(env.lor(*[a == o.addr for o in known]) if known else False, 'OpenSSL gets the pointer to the %s that it returned' % kind)
        for o in known:
            if a == o.addr: return o
    # -- calls
    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        f = getattr(self._real, name)       # unknown functions fail like in the library
        body = getattr(Lib, '_f_' + name, None)
        if body is None: self._env.unmodelled('OpenSSL ' + name)
        def call(*args):
            r = body(self, *[self._arg(f, i, a) for i, a in enumerate(args)])
            r = self._result(f, r)
            check = getattr(f, 'errcheck', None)
            if check is not None: r = check(r, f, args)
            return r
        return call
    def _arg(self, f, i, a):
        if isinstance(a, VoidP): return a.value
        if isinstance(a, (Ref, Buf)) or a is None: return a
        if isinstance(a, UInt32): return a.value
        if isinstance(a, (bytes, bytearray)): return a
        at = f.argtypes
        if at is not None and i < len(at) and at[i] in (ctypes.c_void_p, ctypes.c_size_t, ctypes.c_uint64, ctypes.c_int64): return a
        return self._cint(a)
    def _cint(self, a):
        a = a & 0xffffffff
        return self._env.ite(a < 0x80000000, a, a - 0x100000000)
    def _result(self, f, r):
        if f.restype is None: return None
        if f.restype is ctypes.c_void_p: return None if r == 0 else r
        if f.restype in (ctypes.c_size_t, ctypes.c_uint64, ctypes.c_int64, ctypes.c_long, ctypes.c_ulong): return r
        return self._cint(r)
    # -- OpenSSL
    def _f_EC_KEY_new_by_curve_name(self, nid):
        self._env.check(nid == 714, 'secp256k1')
        return self._new(KEY, priv=None, pub=None, form=4, group=self._new(GROUP)).addr
    def _f_EC_KEY_free(self, k): return 0   # called by the garbage collector at any time
    def _f_BN_new(self): return self._new(BN, v=None).addr
    def _f_BN_bin2bn(self, s, n, ret):
        self._env.check(n <= len(s) and n >= 0, 'OpenSSL does not read beyond the secret')
        b = self._new(BN, v=None) if null(ret) else self._at(ret, BN)
        b.v = bytes(s)[:n]
        return b.addr
    def _f_BN_free(self, b): self._at(b, BN).alive = False; return 0
    _f_BN_clear_free = _f_BN_free
    def _f_BN_CTX_new(self): return self._new(CTX).addr
    def _f_BN_CTX_free(self, c): self._at(c, CTX).alive = False; return 0
    def _f_EC_KEY_get0_group(self, k): return self._at(k, KEY).group.addr
    def _f_EC_POINT_new(self, g): self._at(g, GROUP); return self._new(POINT, v=None).addr
    def _f_EC_POINT_free(self, p): self._at(p, POINT).alive = False; return 0
    def _f_EC_POINT_mul(self, g, r, n, q, m, ctx):
        self._at(g, GROUP); self._at(ctx, CTX)
        if self.fail == 'mul': return 0
        if not (null(q) and null(m)): self._env.unmodelled('EC_POINT_mul of other points')
        s = self._at(n, BN).v
        self._at(r, POINT).v = h(b'X', s)
        self._secrets.append(s)
        return 1
    def _f_EC_KEY_set_private_key(self, k, b): self._at(k, KEY).priv = self._at(b, BN).v; return 1
    def _f_EC_KEY_set_public_key(self, k, p): self._at(k, KEY).pub = self._at(p, POINT).v; return 1
    def _f_EC_KEY_set_conv_form(self, k, form): self._at(k, KEY).form = form; return 0
    def _f_EC_KEY_get0_public_key(self, k):
        k = self._at(k, KEY)
        return self._new(POINT, v=k.pub).addr
    def encode(self, x, form):
        if form == 2: return bytes([2 + (h(b'parity', x)[0] & 1)]) + x
        return b'\4' + x + h(b'Y', x)
    def _f_i2o_ECPublicKey(self, k, out=None):
        k = self._at(k, KEY)
        if k.pub is None: return 0
        e = self.encode(k.pub, k.form)
        self._put(out, e)
        return len(e)
    def _put(self, out, e):
        if null(out): return
        b = out.to.to
        self._env.check(len(e) <= len(b.raw), 'OpenSSL does not write beyond the buffer')
        b.raw = e + b.raw[len(e):]
    def _take(self, ref, n):
        b = ref.to.to
        self._env.check(0 <= n <= len(b.raw), 'OpenSSL does not read beyond the buffer')
        return b.raw[:n]
    def _f_o2i_ECPublicKey(self, k, src, n):
        env = self._env
        k = self._at(k.to.value, KEY)
        d = self._take(src, n)
        self.asked.append(d)
        for s in self._secrets:
            x = h(b'X', s)
            for form in (2, 4):
                e = self.encode(x, form)
                if len(e) == len(d) and e == d:
                    k.pub = x; k.form = form
                    return k.addr
        if env.oracle_bool('valid', d):
            k.pub = h(b'other', d); k.form = 2 if len(d) == 33 else 4
            return k.addr
        return 0
    def _f_i2d_ECPrivateKey(self, k, out=None):
        k = self._at(k, KEY)
        if k.priv is None: return 0
        e = b'\x30' + bytes([k.form]) + k.priv
        self._put(out, e)
        return len(e)
    def _f_d2i_ECPrivateKey(self, k, src, n):
        k = self._at(k.to.value, KEY)
        d = self._take(src, n)
        if len(d) != 34 or d[0] != 0x30: return 0
        k.form = 2 if d[1] == 2 else 4
        k.priv = d[2:]; k.pub = h(b'X', k.priv)
        return k.addr
    def _f_ECDSA_size(self, k): self._at(k, KEY); return 72
    def _f_ECDSA_sign(self, t, dg, n, sig, size, k):
        k = self._at(k, KEY)
        self._env.check(n == len(dg), 'the length of the digest')
        if self.fail == 'sign' or k.priv is None: return 0
        s = (b'\x30' + h(b'sig', k.priv, dg) + b'\x77' * 72)[:self.siglen]
        self._put(Ref(Ref(sig)), s); size.to.value = self.siglen
        self._sigs.append((h(b'X', k.priv), bytes(dg), s))
        return 1
    def _f_ECDSA_verify(self, t, dg, n, sig, m, k):
        env = self._env
        k = self._at(k, KEY)
        env.check(n == len(dg) and m == len(sig), 'the lengths of digest and signature')
        if k.pub is None: return -1
        if self.verdict is not None: return self.verdict
        for x, d, s in self._sigs:
            if len(s) == len(sig) and s == sig: return env.ite(env.land(env.eq(k.pub, x), env.eq(bytes(dg), d)), 1, 0)
        return 0
    def _f_ECDH_compute_key(self, out, n, p, k, kdf):
        x = self._at(p, POINT).v; k = self._at(k, KEY)
        if self.fail == 'ecdh': return -1
        a = h(b'dh', x); b = h(b'dh', h(b'X', k.priv))
        r = bytes([i ^ j for i, j in zip(a, b)])
        self._env.check(n <= len(out.to.raw), 'OpenSSL does not write beyond the buffer')
        out.to.raw = r[:n]
        return 32

def setup(env):
    K = env.mod('bitcoin.core.key')
    lib = Lib(env, K._ssl)
    env.patch(K, '_ssl', lib); env.patch(K, 'ctypes', CTypes(env))
    return K, env.mod('bitcoin.wallet'), lib

def key_pair(env, compressed, siglen, wallet):
    K, W, lib = setup(env)
    lib.siglen = siglen
    secret = env.bytes('secret', 32); d = env.bytes('digest', 32)
    if wallet: key = W.CKey(secret, compressed); pub = key.pub
    else:
        key = K.CECKey(); key.set_secretbytes(secret); key.set_compressed(compressed)
        pub = K.CPubKey(key.get_pubkey(), key)
    env.check(env.eq(bytes(pub), lib.encode(h(b'X', secret), 2 if compressed else 4)), 'the public key of the secret')
    env.check(pub.is_fullyvalid and pub.is_valid and pub.is_compressed == compressed, 'a valid public key')
    if wallet: env.check(key.is_compressed == compressed, 'is_compressed')
    s = key.sign(d)
    env.check(len(s) == siglen and env.eq(s, lib._sigs[0][2]) and env.eq(lib._sigs[0][1], d), 'the signature')
    other = K.CPubKey(bytes(pub))
    env.check(other.is_fullyvalid and other.is_valid and other.is_compressed == compressed and env.eq(bytes(other), bytes(pub)), 'the public key on its own')
    e = env.bytes('e', 32)
    for p in (pub, other):
        env.check(p.verify(d, s) is True, 'the signature verifies')
        env.check(env.iff(p.verify(e, s), env.eq(e, d)), 'for no other digest')
    s2 = env.bytes('s2', 32)
    if wallet: key2 = W.CKey(s2, compressed); pub2 = key2.pub
    else:
        key2 = K.CECKey(); key2.set_secretbytes(s2)
        pub2 = K.CPubKey(key2.get_pubkey())
    env.check(env.iff(pub2.verify(d, s), env.eq(s2, secret)), 'for no other key')
    env.reach('done')

def verdicts(env, n, m):
    """verification is true exactly if the library says 1"""
    K, W, lib = setup(env)
    p = K.CPubKey(env.bytes('p', n))
    d = env.bytes('d', 32); s = env.bytes('s', m)
    lib.verdict = env.int('verdict', -1, 1)
    ok = p.verify(d, s)
    env.check(ok is True or ok is False or env.symbolic, 'a boolean')
    env.check(env.iff(ok, env.land(p.is_fullyvalid, lib.verdict == 1)), 'true exactly if valid')
    k = K.CECKey(); k.set_pubkey(bytes(p))
    env.check(env.iff(k.verify(d, s), env.land(p.is_fullyvalid, lib.verdict == 1)), 'true exactly if valid')
    env.reach('valid' if ok else 'not')

def pubkey(env, n):
    K, W, lib = setup(env)
    b = env.bytes('b', n)
    p = K.CPubKey(b)
    env.check(env.eq(bytes(p), b) and len(p) == n, 'its bytes')
    env.check(lib.asked and env.land(*[len(a) == n and env.eq(a, b) for a in lib.asked]), 'OpenSSL judges exactly these bytes')
    env.check(env.iff(p.is_fullyvalid, env.oracle_bool('valid', b)), 'fully valid exactly if OpenSSL accepts it')
    env.check(p.is_fullyvalid is True or p.is_fullyvalid is False or env.symbolic, 'a boolean')
    env.check(p.is_valid is (n > 0) and p.is_compressed is (n == 33), 'valid and compressed')
    env.reach('ok' if p.is_fullyvalid else 'bad')

def secrets(env, n, wallet):
    K, W, lib = setup(env)
    s = env.bytes('s', n)
    if wallet: r = env.call(W.CKey, s)
    else: r = env.call(K.CECKey().set_secretbytes, s)
    env.check(r.raised(ValueError), 'refused')
    env.reach('done')

def refusals(env, what):
    K, W, lib = setup(env)
    if what == 'mul':
        lib.fail = 'mul'
        env.check(env.call(W.CKey, env.bytes('s', 32)).raised(ValueError), 'no key without a public key')
        env.reach('done'); return
    k = W.CKey(env.bytes('s', 32))
    if what == 'sign':
        lib.fail = 'sign'
        env.check(not env.call(k.sign, env.bytes('d', 32)).ok, 'a failure to sign is reported')
    elif what == 'digest':
        for n in (0, 31, 33, 64): env.check(env.call(k.sign, env.bytes('d%d' % n, n)).raised(ValueError), 'digests have 32 bytes')
        for bad in ('x' * 32, bytearray(32), 5, None): env.check(env.call(k.sign, bad).raised(TypeError), 'digests are bytes')
        env.check(not lib._sigs, 'nothing is signed')
    elif what == 'ecdh':
        lib.fail = 'ecdh'
        a = K.CECKey(); a.set_secretbytes(env.bytes('a', 32))
        env.check(not env.call(a.get_ecdh_key, a).ok and not env.call(a.get_raw_ecdh_key, a).ok, 'a failure is reported')
    env.reach('done')

def agreement(env):
    K, W, lib = setup(env)
    a = K.CECKey(); a.set_secretbytes(env.bytes('a', 32))
    b = K.CECKey(); b.set_secretbytes(env.bytes('b', 32))
    x = a.get_raw_ecdh_key(b)
    env.check(len(x) == 32 and env.eq(x, b.get_raw_ecdh_key(a)), 'both agree on the secret')
    env.check(env.eq(a.get_ecdh_key(b), hashlib.sha256(x).digest()), 'hashed by default')
    env.check(env.eq(a.get_ecdh_key(b, lambda k: k[:5]), x[:5]), 'or as asked for')
    env.check(env.eq(a.get_ecdh_key(b), b.get_ecdh_key(a)), 'both agree')
    p = K.CECKey(); p.set_pubkey(b.get_pubkey())
    env.check(env.eq(a.get_raw_ecdh_key(p), x), 'the public key is enough')
    env.reach('done')

def stored(env, compressed):
    K, W, lib = setup(env)
    s = env.bytes('s', 32)
    k = K.CECKey(); k.set_secretbytes(s); k.set_compressed(compressed)
    p = k.get_privkey()
    env.check(env.eq(p, b'\x30' + bytes([2 if compressed else 4]) + s), 'all of the encoding')
    q = K.CECKey(); q.set_privkey(p)
    env.check(env.eq(q.get_pubkey(), k.get_pubkey()), 'the same key')
    env.check(env.eq(q.get_privkey(), p), 'the same encoding')
    d = env.bytes('d', 32)
    env.check(k.verify(d, q.sign(d)) is True or env.symbolic and k.verify(d, q.sign(d)), 'signs for the same public key')
    env.reach('done')

def wif(env, compressed, tail):
    """a secret key in its text form: 32 bytes, and a 33rd byte 1 for compressed"""
    K, W, lib = setup(env)
    B = env.mod('bitcoin.base58')
    seen = []
    def enc(b): seen.append(bytes(b)); return 'T%d' % (len(seen) - 1)
    env.patch(B, 'encode', enc); env.patch(B, 'decode', lambda t: seen[int(t[1:])])
    s = env.bytes('s', 32)
    k = W.CBitcoinSecret.from_secret_bytes(s, compressed)
    t = W.CBitcoinSecret(str(k))
    for x in (k, t):
        env.check(x.is_compressed == compressed and env.eq(bytes(x.pub), lib.encode(h(b'X', s), 2 if compressed else 4)), 'the public key of the secret')
    d = env.bytes('d', 32)
    env.check(t.pub.verify(d, k.sign(d)), 'signs')
    n = env.choice('shortlen', 3)
    short = env.bytes('short', (0, 20, 31)[n])
    payload = bytes([128]) + short
    seen.append(payload + _tx.sha2(payload)[:4])
    env.check(not env.call(W.CBitcoinSecret, 'T%d' % (len(seen) - 1)).ok, 'a short secret is refused')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for c in (True, False):
        for l in (8, 70, 71, 72): cs.append(dict(name='pair_%s_%d' % (c, l), fn='key_pair', args=dict(compressed=c, siglen=l, wallet=True), reach=['done'], weight=3))
        cs.append(dict(name='pair_low_level_%s' % c, fn='key_pair', args=dict(compressed=c, siglen=71, wallet=False), reach=['done'], weight=3))
        cs.append(dict(name='stored_%s' % c, fn='stored', args=dict(compressed=c), reach=['done']))
        cs.append(dict(name='wif_%s' % c, fn='wif', args=dict(compressed=c, tail=0), reach=['done']))
    for n in (0, 1, 33, 65):
        for m in (0, 1, 8, 71): cs.append(dict(name='verdict_%d_%d' % (n, m), fn='verdicts', args=dict(n=n, m=m), reach=['valid', 'not']))
    for n in range(0, 67) if T else (0, 1, 2, 32, 33, 34, 64, 65, 66): cs.append(dict(name='pubkey_%d' % n, fn='pubkey', args=dict(n=n), reach=['ok', 'bad']))
    for n in list(range(32)) + [33, 40]: 
        for w in (False, True): cs.append(dict(name='secret_%d_%s' % (n, w), fn='secrets', args=dict(n=n, wallet=w), reach=['done']))
    for w in ('mul', 'sign', 'digest', 'ecdh'): cs.append(dict(name='refuse_' + w, fn='refusals', args=dict(what=w), reach=['done']))
    cs.append(dict(name='agreement', fn='agreement', args={}, reach=['done']))
    return cs
