"""C01 primitive serializers: round trip, exact encoding, range and type enforcement"""
PRELOAD = ['proofmarshal.serialize']
BOUNDS = 'integers: every value of -2^70..2^70; fixed-length byte strings of 0..33 bytes and length-bounded ones up to 40 (thorough 140) bytes, all bytes symbolic; length-bounded ones of 127..130, 300 and 16384 bytes with the bytes at the ends symbolic; a fixed list of wrong-typed values per serializer'

def leb128(env, v):
    out = []
    while v > 0x7f:
        out.append((v & 0x7f) | 0x80)
        v = v >> 7
    out.append(v)
    return bytes(out)

def uint(env, bits):
    S = env.mod('proofmarshal.serialize')
    c = getattr(S, 'UInt%d' % bits)
    v = env.int('v', 0, (1 << bits) - 1)
    c.check_instance(v)
    b = c.serialize(v)
    env.check(env.eq(b, leb128(env, v)), 'LEB128 encoding')
    r = c.deserialize(b)
    env.check(env.eq(r, v), 'round trip')
    env.obs('b', b)
    env.reach('len%d' % len(b))
    ctx = S.BytesDeserializationContext(b + bytes([7]))
    env.check(env.eq(c.ctx_deserialize(ctx), v), 'decoding from a stream')
    env.check(ctx.read_bytes(1) == bytes([7]), 'exactly the encoding is consumed')

def uint_range(env, bits):
    S = env.mod('proofmarshal.serialize')
    c = getattr(S, 'UInt%d' % bits)
    v = env.int('v', -(1 << 70), 1 << 70)
    r = env.call(c.check_instance, v)
    good = env.land(v >= 0, v < (1 << bits))
    env.check(env.iff(r.ok, good), 'accepted exactly when in range')
    if not r.ok:
        env.check(r.raised(S.SerializerValueError), 'value error')
        env.reach('refused')
    else:
        env.reach('accepted')

def two_streams(env, a, b):
    """values written one after the other are read back in order"""
    S = env.mod('proofmarshal.serialize')
    ca = getattr(S, 'UInt%d' % a); cb = getattr(S, 'UInt%d' % b)
    x = env.int('x', 0, (1 << a) - 1); y = env.int('y', 0, (1 << b) - 1)
    p = env.bytes('p', 3); t = env.bool('t')
    ctx = S.BytesSerializationContext()
    ca.ctx_serialize(x, ctx); S.VarBytes(5).ctx_serialize(p, ctx); cb.ctx_serialize(y, ctx)
    S.SerBool.ctx_serialize(t, ctx); S.FixedBytes(3).ctx_serialize(p, ctx)
    d = S.BytesDeserializationContext(ctx.getbytes())
    env.check(env.eq(ca.ctx_deserialize(d), x), 'first')
    env.check(env.eq(S.VarBytes(5).ctx_deserialize(d), p), 'second')
    env.check(env.eq(cb.ctx_deserialize(d), y), 'third')
    env.check(env.iff(S.SerBool.ctx_deserialize(d), t), 'fourth')
    env.check(env.eq(S.FixedBytes(3).ctx_deserialize(d), p), 'fifth')
    env.reach('done')

def boolean(env):
    S = env.mod('proofmarshal.serialize')
    v = env.bool('v')
    S.SerBool.check_instance(v)
    b = S.SerBool.serialize(v)
    env.check(env.eq(b, bytes([0xff]) if v else bytes([0])), 'encoding')
    r = S.SerBool.deserialize(b)
    env.check(r is True if v else r is False, 'round trip')
    env.reach('t' if v else 'f')

class MyBytes(bytes): pass
class MyInt(int): pass

def wrong_types(env):
    S = env.mod('proofmarshal.serialize')
    class Other: pass
    vals = dict(none=None, true=True, flt=1.0, st='a', by=b'a' * 32, ba=bytearray(b'a' * 32), li=[1], tu=(1,), obj=Other(), one=1, zero=0,
                mb=MyBytes(b'a' * 32), mi=MyInt(1))
    for name, v in vals.items():
        for bits in (8, 16, 32, 64):
            r = env.call(getattr(S, 'UInt%d' % bits).check_instance, v)
            if name in ('one', 'zero'): env.check(r.ok, 'int accepted')
            else: env.check(not r.ok and r.raised(S.SerializerTypeError), 'UInt%d refuses %s' % (bits, name))
        for c in (S.FixedBytes(32), S.VarBytes(40), S.VarBytes(3, 40), S.Digest):
            r = env.call(c.check_instance, v)
            if name == 'by': env.check(r.ok, 'bytes accepted')
            else: env.check(not r.ok and r.raised(S.SerializerTypeError), 'byte string serializer refuses %s' % name)
        r = env.call(S.SerBool.check_instance, v)
        if name == 'true': env.check(r.ok, 'bool accepted')
        else: env.check(not r.ok and r.raised(S.SerializerTypeError), 'bool serializer refuses %s' % name)
        if name != 'true':
            ctx = S.BytesSerializationContext()
            r = env.call(S.SerBool.ctx_serialize, v, ctx)
            env.check(not r.ok and r.raised(TypeError) and ctx.getbytes() == b'', 'writing a non-bool as bool is refused: ' + name)
    env.reach('done')

def fixed(env, n):
    S = env.mod('proofmarshal.serialize')
    c = S.FixedBytes(n) if n != 32 else S.Digest
    b = env.bytes('b', n)
    c.check_instance(b)
    s = c.serialize(b)
    env.check(env.eq(s, b), 'encoding is the bytes themselves')
    env.check(env.eq(c.deserialize(s), b), 'round trip')
    env.reach('rt')
    for k in (0, 1, n - 1, n + 1, n + 2, 2 * n + 1):
        if k == n or k < 0: continue
        r = env.call(c.check_instance, bytes(k))
        env.check(not r.ok and r.raised(S.SerializerValueError), 'length %d refused' % k)

def var(env, lo, hi, n):
    S = env.mod('proofmarshal.serialize')
    c = S.VarBytes(lo, hi) if lo else S.VarBytes(hi)
    b = env.bytes('b', n)
    r = env.call(c.check_instance, b)
    env.check(r.ok == (lo <= n <= hi), 'accepted exactly when the length is in range')
    if not r.ok:
        env.check(r.raised(S.SerializerValueError), 'value error'); env.reach('refused')
        r = env.call(c.deserialize, leb128(env, n) + b)
        env.check(not r.ok and r.raised(S.DeserializationError), 'an encoding of that length is refused')
        return
    s = c.serialize(b)
    env.check(env.eq(s, leb128(env, n) + b), 'encoding')
    env.check(env.eq(c.deserialize(s), b), 'round trip')
    env.reach('rt')

def longvar(env, n):
    S = env.mod('proofmarshal.serialize')
    b = env.bytes_except('b', n, [0, 1, n - 1])
    for lo, hi in ((0, n), (n, n + 1), (1, 20000)):
        c = S.VarBytes(lo, hi)
        env.check(env.call(c.check_instance, b).ok, 'accepted')
        s = c.serialize(b)
        env.check(env.eq(s, leb128(env, n) + b), 'encoding')
        env.check(env.eq(c.deserialize(s), b), 'round trip')
        d = S.BytesDeserializationContext(s + b'zz')
        env.check(env.eq(c.ctx_deserialize(d), b) and d.read_bytes(2) == b'zz', 'consumes exactly its bytes')
        for k in (0, 1, 2, n - 1, len(s) - 1):
            if k < len(s): env.check(env.call(c.deserialize, s[:k]).raised(S.DeserializationError), 'truncated')
    r = env.call(S.VarBytes(n - 1).deserialize, leb128(env, n) + b)
    env.check(r.raised(S.DeserializationError), 'too long')
    env.reach('done')

def declare(env):
    """declaring nonsensical lengths is refused"""
    S = env.mod('proofmarshal.serialize')
    n = env.concrete(env.int('n', -5, 5))
    r = env.call(S.FixedBytes, n)
    env.check(env.iff(r.ok, n >= 0), 'fixed length must not be negative')
    env.reach('f%d' % (1 if r.ok else 0))
    m = env.concrete(env.int('m', -5, 5))
    r = env.call(S.VarBytes, n, m)
    env.check(env.iff(r.ok, env.land(n >= 0, n < m)), 'bounds must satisfy 0 <= min < max')
    r = env.call(S.VarBytes, n)
    env.check(env.iff(r.ok, n > 0), 'maximum must be positive')
    for bad in ('3', None, 1.5, b'a'):
        env.check(not env.call(S.FixedBytes, bad).ok, 'length must be an integer')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for bits, k in ((8, 2), (16, 3), (32, 5), (64, 10)):
        cs.append(dict(name='uint%d' % bits, fn='uint', args=dict(bits=bits), reach=['len%d' % i for i in range(1, k + 1)]))
        cs.append(dict(name='uint_range%d' % bits, fn='uint_range', args=dict(bits=bits), reach=['refused', 'accepted']))
    cs += [dict(name='boolean', fn='boolean', reach=['t', 'f']), dict(name='wrong_types', fn='wrong_types', reach=['done']),
           dict(name='declare', fn='declare', reach=['f0', 'f1'])]
    for a, b in ((8, 64), (64, 16), (32, 32)): cs.append(dict(name='streams_%d_%d' % (a, b), fn='two_streams', args=dict(a=a, b=b), reach=['done']))
    for n in (0, 1, 2, 16, 31, 32, 33): cs.append(dict(name='fixed%d' % n, fn='fixed', args=dict(n=n), reach=['rt']))
    for lo, hi in ((0, 1), (0, 8), (3, 8), (1, 2), (2, 40)) + (((0, 128), (127, 140)) if T else ()):
        for n in sorted({0, 1, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1}):
            if n < 0: continue
            cs.append(dict(name='var_%d_%d_%d' % (lo, hi, n), fn='var', args=dict(lo=lo, hi=hi, n=n), reach=['rt' if lo <= n <= hi else 'refused']))
    for n in (127, 128, 129): cs.append(dict(name='var_long_%d' % n, fn='var', args=dict(lo=0, hi=200, n=n), reach=['rt']))
    for n in (127, 128, 129, 130, 300, 16384): cs.append(dict(name='longvar_%d' % n, fn='longvar', args=dict(n=n), reach=['done']))
    return cs
