"""C40 bloom filters"""
from io import BytesIO
from props import _tx
PRELOAD = ['bitcoin.core', 'bitcoin.core.serialize', 'bitcoin.bloom']
BOUNDS = 'MurmurHash3 for every 32-bit seed and all data of 0..13, 32, 33 and 36 bytes (thorough 0..40, 65); filters of 0, 1, 2, 3 and 5 bytes (thorough also 4, 8) with any contents, up to 3 hash functions (thorough 4), and filters of 300, 4096 and 36000 bytes at selected bits, two or three elements with any tweak and arbitrary hash values (32 bits; below 1024 where the filter size is not a power of two and several hashes are involved); every filter of 0..4 bytes through the wire format; new filters for 1, 3, 100, 20000 and 10**6 elements and every false positive rate whose natural logarithm is a multiple of 1/8 down to -40 (the logarithm itself is taken as given, arithmetic is in rationals)'
le = _tx.le; vint = _tx.vint
M32 = 0xffffffff
C1 = 0xcc9e2d51; C2 = 0x1b873593

def rotl(x, r): return ((x << r) | (x >> (32 - r))) & M32
def mix(k): return (rotl((k * C1) & M32, 15) * C2) & M32
def murmur(seed, d):
    """MurmurHash3 x86_32, from the published definition"""
    h = seed; n = len(d) // 4
    for j in range(n):
        k = d[4 * j] + (d[4 * j + 1] << 8) + (d[4 * j + 2] << 16) + (d[4 * j + 3] << 24)
        h = (rotl(h ^ mix(k), 13) * 5 + 0xe6546b64) & M32
    t = d[4 * n:]; k = 0
    for j in range(len(t)): k = k + (t[j] << (8 * j))
    if len(t): h = h ^ mix(k)
    h = h ^ len(d)
    h = ((h ^ (h >> 16)) * 0x85ebca6b) & M32
    h = ((h ^ (h >> 13)) * 0xc2b2ae35) & M32
    return h ^ (h >> 16)

def hash3(env, n):
    B = env.mod('bitcoin.bloom')
    seed = env.int('seed', 0, M32); d = env.bytes('d', n)
    r = env.call(B.MurmurHash3, seed, d)
    env.check(r.ok and env.eq(r.value, murmur(seed, d)), 'the published hash')
    env.reach('done')

def vectors(env):
    """the reference above on published values"""
    for w, s, d in ((0, 0, ''), (0x6a396f08, 0xFBA4C795, ''), (0x514e28b7, 0, '00'), (0xea3f0b17, 0xFBA4C795, '00'), (0x8eb51c3d, 0, '001122'), (0xfc2e4a15, 0, '001122334455'), (0xb4698def, 0, '001122334455667788')):
        env.check(murmur(s, bytes.fromhex(d)) == w, 'reference')
    env.reach('done')

def make(env, data, k, tweak, flags=0):
    B = env.mod('bitcoin.bloom')
    f = B.CBloomFilter(3, 0.01, tweak, flags)
    f.vData = bytearray(data); f.nHashFuncs = k
    return f

class Hashes:
    """an arbitrary hash function in place of MurmurHash3, asked only for the seeds of the definition"""
    def __init__(self, env, elems, k, tweak, top=M32):
        self.env = env; self.elems = elems; self.k = k; self.tweak = tweak
        self.h = [[env.int('h%d.%d' % (e, i), 0, top) for i in range(k)] for e in range(len(elems))]
        env.patch(env.mod('bitcoin.bloom'), 'MurmurHash3', self.ask)
    def ask(self, seed, data):
        for i in range(self.k):
            if seed == (i * 0xFBA4C795 + self.tweak) & M32:
                for e in range(len(self.elems)):
                    if len(data) == len(self.elems[e]) and bytes(data) == self.elems[e]: return self.h[e][i]
        self.env.fail('a hash outside the definition')

def bit(data, n): return (data[n >> 3] >> (n & 7)) & 1 == 1

def members(env, L, k, ne, kinds):
    """insert elements into a filter of any contents"""
    C = env.mod('bitcoin.core')
    data = env.bytes('data', L); tweak = env.int('tweak', 0, M32)
    out = C.COutPoint(b'\x11' * 32, 7)
    elems = [out if c == 'o' else b'elem%d' % j * (j + 1) for j, c in enumerate(kinds)]
    raw = [b'\x11' * 32 + le(7, 4) if c == 'o' else elems[j] for j, c in enumerate(kinds)]
    H = Hashes(env, raw, k, tweak, M32 if L in (0, 1, 2, 4, 8) or k < 2 and len(kinds) < 3 and L < 5 else 0x3ff)
    f = make(env, data, k, tweak)
    full = env.eq(data, b'\xff') if L == 1 else L == 0
    def has(bits, e): return env.land(*[env.lor(*[env.land(H.h[e][i] % (8 * L) == b, bits[b]) for b in range(8 * L)]) for i in range(k)]) if L else True
    bits = [bit(data, b) for b in range(8 * L)]
    for e in range(ne):
        before = bytes(f.vData)
        was = env.call(f.contains, elems[e])
        env.check(was.ok and env.iff(was.value, env.lor(full, has(bits, e))), 'contained exactly when every bit is set')
        r = env.call(f.insert, elems[e])
        env.check(r.ok, 'inserted')
        bits = [env.lor(bits[b], *[H.h[e][i] % (8 * L) == b for i in range(k)]) for b in range(8 * L)]
        env.check(len(f.vData) == L and env.land(*[env.iff(bit(f.vData, b), bits[b]) for b in range(8 * L)]), 'exactly its bits are set')
        if was.value: env.check(env.eq(bytes(f.vData), before), 'an element already covered changes nothing')
    for e in range(ne):
        r = env.call(f.contains, elems[e])
        env.check(r.ok and r.value, 'no false negative')
    g = env.mod('bitcoin.bloom').CBloomFilter.deserialize(f.serialize())
    for e in range(len(elems)):
        r = env.call(g.contains, elems[e]); q = env.call(f.contains, elems[e])
        env.check(r.ok and q.ok and env.iff(r.value, q.value), 'the same answers from the wire')
    env.reach('done')

def wire(env, L):
    B = env.mod('bitcoin.bloom'); S = env.mod('bitcoin.core.serialize')
    data = env.bytes('data', L); k = env.int('k', 0, M32); t = env.int('t', 0, M32); fl = env.int('f', 0, 255)
    f = make(env, data, k, t, fl)
    w = vint(L) + data + le(k, 4) + le(t, 4) + bytes([fl])
    env.check(env.eq(f.serialize(), w), 'wire format')
    s = BytesIO(w + b'rest')
    r = env.call(B.CBloomFilter.stream_deserialize, s)
    env.check(r.ok and type(r.value) is B.CBloomFilter and s.read() == b'rest', 'decodes')
    g = r.value
    env.check(env.land(env.eq(bytes(g.vData), data), env.eq(g.nHashFuncs, k), env.eq(g.nTweak, t), env.eq(g.nFlags, fl)), 'fields')
    env.check(g == f and env.eq(g.serialize(), w), 'equal')
    c = env.choice('cut', len(w))
    env.check(env.call(B.CBloomFilter.deserialize, w[:c]).raised(S.SerializationError), 'truncated')
    env.reach('done')

def received(env, L, k):
    """a received filter can be inserted into"""
    B = env.mod('bitcoin.bloom')
    data = env.bytes('data', L); tweak = env.int('tweak', 0, M32)
    H = Hashes(env, [b'x'], k, tweak)
    g = B.CBloomFilter.deserialize(vint(L) + data + le(k, 4) + le(tweak, 4) + b'\x01')
    env.check(env.call(g.insert, b'x').ok, 'inserted')
    r = env.call(g.contains, b'x')
    env.check(r.ok and r.value, 'contained')
    env.reach('done')

def whole(env, n, rate):
    """with the real hash: concrete elements, every flag"""
    B = env.mod('bitcoin.bloom')
    t = [0, 1, 100, 2147483649, M32][env.choice('tweak', 5)]
    f = B.CBloomFilter(n, rate, t, env.int('flags', 0, 255))
    es = [bytes([j] * (3 * j + 1)) for j in range(n)]
    bits = [False] * (8 * len(f.vData))
    for e in es:
        f.insert(e)
        if bits:
            for i in range(f.nHashFuncs): bits[murmur((i * 0xFBA4C795 + t) & M32, e) % len(bits)] = True
    for b in range(len(bits)): env.check(bit(f.vData, b) == bits[b], 'bits')
    for e in es: env.check(f.contains(e), 'contained')
    env.check(f.IsWithinSizeConstraints(), 'within the limits')
    env.reach('done')

class Sized:
    """a byte array of which only the size matters"""
    def __init__(self, n): self.n = n
    def __len__(self): return self.n

def built(env, n, ltop):
    """a new filter for n elements and any false positive rate (through its logarithm)"""
    B = env.mod('bitcoin.bloom')
    m = env.int('m', 0, ltop * 8)
    class Math:
        def log(self, x): return -m / 8 if x == 0.25 else env.fail('the logarithm of something else')
    env.patch(B, 'math', Math()); env.patch(B, 'bytearray', Sized)
    t = env.int('t', 0, M32); fl = env.int('f', 0, 255)
    f = B.CBloomFilter(n, 0.25, t, fl)
    L = len(f.vData); k = f.nHashFuncs
    env.check(env.land(L >= 0, L <= 36000, k >= 0, k <= 50), 'within the protocol limits')
    env.check(f.IsWithinSizeConstraints(), 'within the protocol limits')
    env.check(env.land(env.eq(f.nTweak, t), env.eq(f.nFlags, fl)), 'tweak and flags')
    U = 10 ** 10
    # bits = n * m/8 / ln(2)^2, in units of 1/(8*U)
    d = (8 * L) * 8 * 4804530139 - n * m * U
    one = 8 * 4804530139
    env.check(env.ite(n * m * U >= 36000 * 8 * one + one, L == 36000, env.land(d <= one // 100 + 1, d >= -8 * one - one // 100 - 1)), 'the optimal size')
    g = k * n * U - (8 * L) * 6931471806
    env.check(env.lor(env.land(k == 50, g <= 0), env.land(g <= n * U // 100, g >= -n * U - n * U // 100)), 'the optimal number of hash functions')
    env.reach('done')

def limits(env, L):
    f = make(env, b'', 1, 0)
    f.vData = bytearray(L); f.nHashFuncs = env.int('k', 0, M32)
    env.check(env.iff(f.IsWithinSizeConstraints(), env.land(L <= 36000, f.nHashFuncs <= 50)), 'size limits')
    env.reach('done')

def wide(env, L):
    """large filters: hash values at the ends, byte limits and beyond the filter size"""
    B = env.mod('bitcoin.bloom')
    n = 8 * L
    hs = [0, 7, 8, 255, 256, 2047, 2048, n - 1, n, n + 9, M32, 1 << 31]
    a = hs[env.choice('a', len(hs))]; b = hs[env.choice('b', len(hs))]
    class Two:
        def __call__(self, seed, d): return a if seed == 5 else b if seed == (0xFBA4C795 + 5) & M32 else env.fail('a hash outside the definition')
    env.patch(B, 'MurmurHash3', Two())
    f = make(env, bytes(L), 2, 5)
    env.check(f.contains(b'x') is False, 'empty')
    f.insert(b'x')
    env.check(f.contains(b'x') is True, 'contained')
    d = bytearray(L)
    for h in (a, b): d[h % n >> 3] |= 1 << (h % n & 7)
    env.check(bytes(f.vData) == bytes(d), 'exactly its bits')
    g = B.CBloomFilter.deserialize(f.serialize())
    env.check(bytes(g.vData) == bytes(d) and g.contains(b'x') is True, 'from the wire')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = [dict(name='hash3_%d' % n, fn='hash3', args=dict(n=n), reach=['done'], weight=n) for n in (list(range(0, 41)) + [65] if T else list(range(0, 14)) + [32, 33, 36])]
    cs.append(dict(name='vectors', fn='vectors', reach=['done']))
    for L in (0, 1, 2, 3, 5) + ((4, 8) if T else ()):
        for k in ((0, 1, 2, 3) if not T else (0, 1, 2, 3, 4)):
            for ne, kinds in ((1, 'bb'), (2, 'bo'), (2, 'bbb')):
                if ne == 2 and (k * L > 6 and not T or k * L > 12): continue
                cs.append(dict(name='members_%d_%d_%s' % (L, k, kinds), fn='members', args=dict(L=L, k=k, ne=ne, kinds=kinds), reach=['done'], weight=k * L))
    for L in range(5): cs.append(dict(name='wire_%d' % L, fn='wire', args=dict(L=L), reach=['done']))
    for L in (0, 1, 3): cs.append(dict(name='received_%d' % L, fn='received', args=dict(L=L, k=2), reach=['done']))
    for n, r in ((1, 0.5), (1, 0.01), (3, 0.01), (5, 0.001)): cs.append(dict(name='whole_%d_%d' % (n, int(1 / r)), fn='whole', args=dict(n=n, rate=r), reach=['done']))
    for L in (0, 36000, 36001): cs.append(dict(name='limits_%d' % L, fn='limits', args=dict(L=L), reach=['done']))
    for n in (1, 3, 100, 20000, 10**6) + ((2, 5, 7, 13, 1000, 12345, 288000, 10**7) if T else ()): cs.append(dict(name='built_%d' % n, fn='built', args=dict(n=n, ltop=40), reach=['done'], weight=9))
    for L in (300, 4096, 36000): cs.append(dict(name='wide_%d' % L, fn='wide', args=dict(L=L), reach=['done'], weight=9))
    return cs
