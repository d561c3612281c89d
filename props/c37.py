"""C37 Base58 and Base58Check"""
from props import _tx
PRELOAD = ['bitcoin.core', 'bitcoin.base58']
BOUNDS = 'byte strings of up to 7 bytes (thorough 12) after 0..2 zero bytes, texts of up to 8 characters (thorough 18) over the alphabet after 0..2 ones (re-encoding the decoded bytes directly for up to 2 characters; beyond that it follows from the exact value and the leading zeros), any character in the first 4 positions for refusal; checked data of 0..33 bytes (thorough 63) with every version and decoded payloads of 0..39 bytes (thorough 63) with any checksum, for these the base conversion itself replaced by a stand-in (it is decided separately)'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']
DIGITS = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'

def enc(env, n, zeros):
    B = env.mod('bitcoin.base58')
    b = bytes(zeros) + env.bytes('b', n, kind='int')
    r = env.call(B.encode, b)
    env.check(r.ok, 'encodes')
    s = r.value
    z = 0
    for c in b:
        if c != 0: break
        z += 1
    env.check(all([c == '1' for c in s[:z]]) and (len(s) == z or s[z] != '1'), 'a one for every leading zero byte')
    v = 0; w = 0
    for c in s: v = v * 58 + DIGITS.index(c)
    for c in b: w = w * 256 + c
    env.check(env.eq(v, w), 'the number in base 58')
    q = env.call(B.decode, s)
    env.check(q.ok and env.eq(q.value, b), 'round trip')
    env.reach('zero' if z else 'plain')

def dec(env, n, ones):
    """every text over the alphabet"""
    B = env.mod('bitcoin.base58')
    ds = [0] * ones + [env.int('d%d' % k, 0, 57, kind='int') for k in range(n)]
    s = ''.join([DIGITS[d] for d in ds])
    r = env.call(B.decode, s)
    env.check(r.ok and isinstance(r.value, bytes), 'decodes')
    b = r.value
    z = 0
    for d in ds:
        if d != 0: break
        z += 1
    v = 0; w = 0
    for d in ds: v = v * 58 + d
    for c in b: w = w * 256 + c
    env.check(env.eq(v, w), 'the number')
    env.check(env.land(*[c == 0 for c in b[:z]]) and len(b) >= z and (len(b) == z or b[z] != 0), 'a zero byte for every leading one')
    if n <= 2:   # for longer texts this follows from the exact value, the leading zeros and the enc cases
        q = env.call(B.encode, b)
        env.check(q.ok and q.value == s, 'the same text again')
    env.reach('zero' if z else 'plain')

def longdec(env, n, k):
    """texts of n characters of which the one at k is symbolic"""
    B = env.mod('bitcoin.base58')
    ds = [(7 * j + n) % 57 + 1 for j in range(n)]; ds[k] = env.int('d', 0, 57, kind='int')
    s = ''.join([DIGITS[d] for d in ds])
    r = env.call(B.decode, s)
    env.check(r.ok and isinstance(r.value, bytes), 'decodes')
    b = r.value
    v = 0; w = 0
    for d in ds: v = v * 58 + d
    for c in b: w = w * 256 + c
    env.check(env.eq(v, w), 'the number')
    if k == 0 and ds[0] == 0: env.check(b[0] == 0 and b[1] != 0, 'a zero byte for a leading one')
    else: env.check(b[0] != 0, 'no leading zero')
    env.reach('done')

def longenc(env, n, k):
    """n bytes, the one at k among those around digit limits"""
    B = env.mod('bitcoin.base58')
    l = [(11 * j + n) % 255 + 1 for j in range(n)]; l[k] = [0, 1, 7, 15, 16, 57, 58, 127, 128, 255][env.choice('c', 10)]
    r = env.call(B.encode, bytes(l))
    env.check(r.ok, 'encodes')
    v = 0; w = 0
    for c in r.value: v = v * 58 + DIGITS.index(c)
    for c in l: w = w * 256 + c
    env.check(env.eq(v, w), 'the number in base 58')
    z = 1 if k == 0 and l[0] == 0 else 0
    env.check(r.value[:z] == '1' * z and r.value[z] != '1', 'leading zeros')
    q = env.call(B.decode, r.value)
    env.check(q.ok and env.eq(q.value, bytes(l)), 'round trip')
    env.reach('done')

def bad(env, n, k):
    """one arbitrary character at position k"""
    B = env.mod('bitcoin.base58')
    c = env.text('c', 1)
    s = '2' * k + c + 'z' * (n - k - 1)
    r = env.call(B.decode, s)
    good = False
    for x in DIGITS:
        if c == x: good = True
    env.check(r.ok if good else r.raised(B.InvalidBase58Error) and r.raised(B.Base58Error), 'refused exactly when not a digit')
    q = env.call(B.CBase58Data, s)
    env.check(q.raised(B.Base58Error) or q.ok and good and n > 4, 'no data from it')
    env.reach('good' if good else 'bad')

def latin(env, k):
    B = env.mod('bitcoin.base58')
    c = chr(128 + env.choice('c', 300))
    env.check(env.call(B.decode, '2' * k + c + '2').raised(B.InvalidBase58Error) and env.call(B.CBase58Data, '2' * k + c + '2').raised(B.Base58Error), 'refused')
    env.reach('done')

def data(env, n):
    """checked data of n bytes: text and back, the base conversion replaced by an arbitrary injective one (decided above)"""
    B = env.mod('bitcoin.base58')
    d = env.bytes('d', n); v = env.int('v', 0, 255)
    seen = []
    env.patch(B, 'encode', lambda b: seen.append(bytes(b)) or 'T')
    env.patch(B, 'decode', lambda s: seen[0] if s == 'T' else b'')
    x = env.call(B.CBase58Data.from_bytes, d, v)
    env.check(x.ok and isinstance(x.value, B.CBase58Data) and env.eq(bytes(x.value), d) and env.eq(x.value.nVersion, v) and env.eq(x.value.to_bytes(), d), 'made')
    s = str(x.value)
    env.check(len(seen) == 1 and env.eq(seen[0], bytes([v]) + d + _tx.sha2(bytes([v]) + d)[:4]), 'version, data and checksum')
    y = env.call(B.CBase58Data, s)
    env.check(y.ok and env.eq(bytes(y.value), d) and env.eq(y.value.nVersion, v), 'round trip')
    env.reach('done')

def payload(env, n):
    """any decoded bytes"""
    B = env.mod('bitcoin.base58')
    k = env.bytes('k', n)
    env.patch(B, 'decode', lambda s: k)
    r = env.call(B.CBase58Data, 'T')
    good = False
    if n >= 5: good = env.eq(k[n - 4:], _tx.sha2(k[:n - 4])[:4])
    env.check(r.ok or r.raised(B.Base58Error), 'only the base58 errors')
    env.check(env.iff(r.ok, good), 'accepted exactly when there is a version and the checksum is right')
    if r.ok: env.check(env.eq(bytes(r.value), k[1:n - 4]) and env.eq(r.value.nVersion, k[0]), 'version and data')
    env.reach('ok' if r.ok else 'refused')

def version(env):
    B = env.mod('bitcoin.base58')
    v = env.int('v', -2**40, 2**40)
    r = env.call(B.CBase58Data.from_bytes, b'ab', v)
    env.check(env.iff(r.ok, env.land(v >= 0, v <= 255)) and (r.ok or r.raised(ValueError)), 'version range')
    env.reach('ok' if r.ok else 'refused')

def whole(env, n):
    """text and back without replacement, for concrete data of n bytes and some versions"""
    B = env.mod('bitcoin.base58')
    v = [0, 1, 57, 58, 111, 128, 196, 255][env.choice('v', 8)]
    d = bytes([(17 * j + n) % 256 for j in range(n)])
    if env.choice('zero', 2): d = bytes(n)
    s = str(B.CBase58Data.from_bytes(d, v))
    y = env.call(B.CBase58Data, s)
    env.check(y.ok and bytes(y.value) == d and y.value.nVersion == v, 'round trip')
    k = env.choice('k', len(s)); c = DIGITS[env.choice('c', 3) * 19]
    t = s[:k] + c + s[k + 1:]
    if t != s: env.check(env.call(B.CBase58Data, t).raised(B.Base58Error), 'one character changed')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in range(0, 13 if T else 8):
        for z in (0, 1, 2): cs.append(dict(name='enc_%d_%d' % (n, z), fn='enc', args=dict(n=n, zeros=z), reach=['zero'] if z or not n else ['plain', 'zero'], weight=n) if n or z else dict(name='enc_0_0', fn='enc', args=dict(n=0, zeros=0), reach=['plain']))
    for n in range(0, 19 if T else 9):
        for z in (0, 1, 2): cs.append(dict(name='dec_%d_%d' % (n, z), fn='dec', args=dict(n=n, ones=z), reach=['zero'] if z or not n else ['plain', 'zero'], weight=n) if n or z else dict(name='dec_0_0', fn='dec', args=dict(n=0, ones=0), reach=['plain']))
    for n in (1, 2, 4, 10):
        for k in range(min(n, 4)): cs.append(dict(name='bad_%d_%d' % (n, k), fn='bad', args=dict(n=n, k=k), reach=['good', 'bad']))
    for n in (27, 28, 34, 35, 44, 45, 46, 51, 52): cs += [dict(name='longdec_%d_%d' % (n, k), fn='longdec', args=dict(n=n, k=k), reach=['done'], weight=20) for k in (0, n - 1)]
    for n in (20, 21, 25, 32, 33, 34, 35, 64): cs += [dict(name='longenc_%d_%d' % (n, k), fn='longenc', args=dict(n=n, k=k), reach=['done'], weight=20) for k in (0, n - 1)]
    for k in (0, 1): cs.append(dict(name='latin_%d' % k, fn='latin', args=dict(k=k), reach=['done']))
    for n in list(range(0, 64 if T else 34)): cs.append(dict(name='data_%d' % n, fn='data', args=dict(n=n), reach=['done']))
    for n in list(range(0, 64 if T else 40)): cs.append(dict(name='payload_%d' % n, fn='payload', args=dict(n=n), reach=['refused'] + (['ok'] if n > 4 else [])))
    cs.append(dict(name='version', fn='version', args={}, reach=['ok', 'refused']))
    for n in (0, 1): cs.append(dict(name='whole_%d' % n, fn='whole', args=dict(n=n), reach=['done'], opts=dict(max_paths=10**6)))
    return cs
