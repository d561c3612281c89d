"""C21 compact sizes, byte strings, vectors"""
import io, struct
PRELOAD = ['bitcoin.core.serialize', 'bitcoin.core']
BOUNDS = 'every integer of 0..2^64-1 (and a band outside); arbitrary bytes for decoding; byte strings of the listed lengths with all bytes symbolic up to 64 and 12 symbolic positions beyond; vectors up to 4 elements, and of 252, 253, 254 and 300 elements with the first and last symbolic'

def ref_varint(env, i):
    if i < 0xfd: return bytes([i])
    if i < 0x10000: return bytes([0xfd]) + struct.pack('<H', i)
    if i < 0x100000000: return bytes([0xfe]) + struct.pack('<I', i)
    return bytes([0xff]) + struct.pack('<Q', i)

def varint(env):
    S = env.mod('bitcoin.core.serialize')
    i = env.int('i', 0, (1 << 64) - 1)
    b = S.VarIntSerializer.serialize(i)
    env.check(env.eq(b, ref_varint(env, i)), 'compact size encoding')
    env.obs('b', b)
    j = S.VarIntSerializer.deserialize(b)
    env.check(env.eq(i, j), 'compact size round trip')
    env.reach('len%d' % len(b))
    tail = env.bytes('tail', 3)
    f = io.BytesIO(b + tail)
    k = S.VarIntSerializer.stream_deserialize(f)
    env.check(env.eq(k, i), 'stream decode')
    env.check(env.eq(f.read(), tail), 'consumes exactly its bytes')

def varint_reject(env):
    S = env.mod('bitcoin.core.serialize')
    i = env.int('i', -(1 << 66), -1)
    r = env.call(S.VarIntSerializer.serialize, i)
    env.check(not r.ok and r.raised(ValueError), 'negative refused with ValueError')
    env.reach('neg')
    j = env.int('j', 1 << 64, 1 << 66)
    r = env.call(S.VarIntSerializer.serialize, j)
    env.check(not r.ok, 'more than 64 bits refused')

def varint_decode(env, n):
    """any n bytes: decodes to the defined value or truncation"""
    S = env.mod('bitcoin.core.serialize')
    b = env.bytes('b', n)
    f = io.BytesIO(b)
    r = env.call(S.VarIntSerializer.stream_deserialize, f)
    need = 1
    if n:
        p = b[0]
        if p == 0xfd: need = 3
        elif p == 0xfe: need = 5
        elif p == 0xff: need = 9
    if n < need:
        env.check(not r.ok and r.raised(S.SerializationTruncationError), 'truncated input raises the truncation error')
        env.reach('trunc')
    else:
        env.check(r.ok, 'complete input decodes')
        exp = b[0] if need == 1 else int.from_bytes(b[1:need], 'little')
        env.check(env.eq(r.value, exp), 'decoded value')
        env.check(f.tell() == need, 'consumed bytes')
        env.reach('full')

def payload(env, name, n):
    if n <= 64: return env.bytes(name, n)
    pos = sorted(set([0, 1, 2, n // 2, n - 3, n - 2, n - 1] + [k for k in (251, 252, 253, 254, 255, 256, 65534, 65535) if k < n]))
    return env.bytes_except(name, n, pos)

def varbytes(env, n):
    S = env.mod('bitcoin.core.serialize')
    b = payload(env, 'b', n)
    s = S.BytesSerializer.serialize(b)
    env.check(env.eq(s, ref_varint(env, n) + b), 'length prefix followed by data')
    env.check(env.eq(S.BytesSerializer.deserialize(s), b), 'byte string round trip')
    env.reach('rt')
    # every truncation point
    cuts = range(len(s)) if len(s) <= 70 else [0, 1, 2, 3, 4, 5, 6, len(s) // 2, len(s) - 2, len(s) - 1]
    for k in cuts:
        f = io.BytesIO(s[:k])
        r = env.call(S.BytesSerializer.stream_deserialize, f)
        env.check(not r.ok and r.raised(S.SerializationTruncationError), 'truncated at %d' % k)

def varbytes_decode(env, n):
    """arbitrary bytes as a byte string: exactly the prefixed data or truncation (or oversize)"""
    S = env.mod('bitcoin.core.serialize')
    b = env.bytes('b', n)
    f = io.BytesIO(b)
    r = env.call(S.BytesSerializer.stream_deserialize, f)
    if not r.ok:
        env.check(r.raised(S.SerializationError), 'only serialization errors')
        env.reach('err')
        if n and b[0] < 0xfd: env.check(b[0] > n - 1, 'a short form is refused only when data is missing')
    else:
        env.reach('ok')
        p = b[0]
        h = 1 if p < 0xfd else 3 if p == 0xfd else 5 if p == 0xfe else 9
        l = p if h == 1 else int.from_bytes(b[1:h], 'little')
        env.check(l <= n - h, 'length fits')
        env.check(env.land(len(r.value) == l, env.eq(r.value, b[h:h + len(r.value)])), 'data returned')
        env.check(f.tell() == h + len(r.value), 'consumed')

def uint256vec(env, n):
    S = env.mod('bitcoin.core.serialize')
    v = [env.bytes('u%d' % k, 32) for k in range(n)]
    r = env.call(S.uint256VectorSerializer.serialize, v)
    if not r.ok: raise r.exc
    env.check(env.eq(r.value, bytes([n]) + b''.join(v)), 'encoding')
    d = S.uint256VectorSerializer.deserialize(r.value)
    env.check(env.eq(list(d), v), 'round trip')
    env.reach('rt')
    for k in range(0, len(r.value), 7):
        t = env.call(S.uint256VectorSerializer.stream_deserialize, io.BytesIO(r.value[:k]))
        env.check(not t.ok and t.raised(S.SerializationTruncationError), 'truncated at %d' % k)

def vector(env, n):
    """vector of outpoints (36 bytes each)"""
    S = env.mod('bitcoin.core.serialize'); C = env.mod('bitcoin.core')
    objs = [C.COutPoint(env.bytes('h%d' % k, 32), env.int('n%d' % k, 0, 0xffffffff)) for k in range(n)]
    f = io.BytesIO()
    S.VectorSerializer.stream_serialize(C.COutPoint, objs, f)
    b = f.getvalue()
    exp = bytes([n])
    for o in objs: exp = exp + o.hash + struct.pack('<I', o.n)
    env.check(env.eq(b, exp), 'vector encoding')
    d = S.VectorSerializer.stream_deserialize(C.COutPoint, io.BytesIO(b))
    env.check(len(d) == n, 'number of elements')
    for p, q in zip(d, objs):
        env.check(env.land(env.eq(p.hash, q.hash), env.eq(p.n, q.n)), 'element')
    env.reach('rt')
    for k in range(len(b)):
        t = env.call(S.VectorSerializer.stream_deserialize, C.COutPoint, io.BytesIO(b[:k]))
        env.check(not t.ok and t.raised(S.SerializationTruncationError), 'truncated at %d' % k)

def longvec(env, n):
    S = env.mod('bitcoin.core.serialize'); C = env.mod('bitcoin.core')
    objs = [C.COutPoint(bytes([k & 255] * 32), k) for k in range(n)]
    objs[0] = C.COutPoint(env.bytes('h', 32), env.int('n', 0, 0xffffffff)); objs[-1] = C.COutPoint(env.bytes('g', 32), env.int('m', 0, 0xffffffff))
    f = io.BytesIO()
    S.VectorSerializer.stream_serialize(C.COutPoint, objs, f)
    b = f.getvalue()
    env.check(env.eq(b, ref_varint(env, n) + b''.join([bytes(o.hash) + struct.pack('<I', o.n) for o in objs])), 'vector encoding')
    f = io.BytesIO(b + b'zz')
    d = S.VectorSerializer.stream_deserialize(C.COutPoint, f)
    env.check(len(d) == n and f.read() == b'zz' and env.land(*[env.land(env.eq(p.hash, q.hash), env.eq(p.n, q.n)) for p, q in zip(d, objs)]), 'elements')
    for k in (0, 1, 2, 3, 39, len(b) - 36, len(b) - 1):
        env.check(env.call(S.VectorSerializer.stream_deserialize, C.COutPoint, io.BytesIO(b[:k])).raised(S.SerializationTruncationError), 'truncated')
    v = [env.bytes('u', 32)] + [bytes(32)] * (n - 1)
    s = S.uint256VectorSerializer.serialize(v)
    env.check(env.eq(s, ref_varint(env, n) + b''.join(v)) and env.eq(list(S.uint256VectorSerializer.deserialize(s)), v), 'uint256 vector')
    v = [env.int('i', -(1 << 31), (1 << 31) - 1)] + [k - 100 for k in range(n - 1)]
    s = S.intVectorSerialzer.serialize(v)
    env.check(env.eq(s, ref_varint(env, n) + b''.join([struct.pack('<i', x) for x in v])) and env.eq(list(S.intVectorSerialzer.deserialize(s)), v), 'integer vector')
    env.reach('done')

def intvec(env, n):
    S = env.mod('bitcoin.core.serialize')
    v = [env.int('v%d' % k, -(1 << 31), (1 << 31) - 1) for k in range(n)]
    b = S.intVectorSerialzer.serialize(v)
    exp = bytes([n])
    for x in v: exp = exp + struct.pack('<i', x)
    env.check(env.eq(b, exp), 'encoding')
    d = S.intVectorSerialzer.deserialize(b)
    env.check(env.eq(list(d), v), 'integer vector round trip')
    env.reach('rt')

def varstring(env, n):
    S = env.mod('bitcoin.core.serialize')
    s = env.bytes('s', n)
    b = S.VarStringSerializer.serialize(s)
    env.check(env.eq(b, ref_varint(env, n) + s), 'encoding')
    env.check(env.eq(S.VarStringSerializer.deserialize(b), s), 'round trip')
    env.reach('rt')
    for k in range(len(b)):
        t = env.call(S.VarStringSerializer.stream_deserialize, io.BytesIO(b[:k]))
        env.check(not t.ok and t.raised(S.SerializationTruncationError), 'truncated at %d' % k)

def cases(tier):
    T = tier == 'thorough'
    cs = [dict(name='varint', fn='varint', reach=['len1', 'len3', 'len5', 'len9']),
          dict(name='varint_reject', fn='varint_reject', reach=['neg'])]
    for n in range(0, 11): cs.append(dict(name='varint_decode%d' % n, fn='varint_decode', args=dict(n=n), reach=['full'] if n else ['trunc']))
    for n in ([0, 1, 2, 16, 64, 252, 253, 254, 255, 256, 65535, 65536] + ([3, 5, 8, 32, 63, 251, 1000, 65534, 65537] if T else [])):
        cs.append(dict(name='varbytes%d' % n, fn='varbytes', args=dict(n=n), reach=['rt'], weight=n))
    for n in range(0, 14 if T else 12): cs.append(dict(name='varbytes_decode%d' % n, fn='varbytes_decode', args=dict(n=n), reach=['ok'] if n else ['err']))
    for n in range(0, 5): cs.append(dict(name='uint256vec%d' % n, fn='uint256vec', args=dict(n=n), reach=['rt']))
    for n in range(0, 5 if T else 4): cs.append(dict(name='vector%d' % n, fn='vector', args=dict(n=n), reach=['rt']))
    for n in range(0, 4): cs.append(dict(name='intvec%d' % n, fn='intvec', args=dict(n=n), reach=['rt']))
    for n in (0, 1, 5, 40): cs.append(dict(name='varstring%d' % n, fn='varstring', args=dict(n=n), reach=['rt']))
    for n in (252, 253, 254, 300): cs.append(dict(name='longvec%d' % n, fn='longvec', args=dict(n=n), reach=['done'], weight=50))
    return cs
