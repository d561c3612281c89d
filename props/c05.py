"""C05 canonical serialization of bit strings"""
from props.c03 import mk, same
from props._pm import leb128
import io
PRELOAD = ['proofmarshal.bits', 'proofmarshal.serialize']
BOUNDS = 'bit strings of 0..34 bits and of 127..130 bits (thorough 0..70, 127..145), every bit symbolic, over storage with and without surplus bytes; arbitrary encodings of up to 6 bytes'

def rt(env, n, extra):
    B = env.mod('proofmarshal.bits'); S = env.mod('proofmarshal.serialize')
    b, l = mk(env, 'buf', n, extra)
    B.BitsSerializer.check_instance(b)
    s = B.BitsSerializer.serialize(b)
    p = l + [0] * (-n % 8)
    exp = leb128(n)
    for i in range(0, len(p), 8):
        v = 0
        for x in p[i:i + 8]: v = (v << 1) | x
        exp = exp + bytes([v])
    env.check(env.eq(s, exp), 'length, then the bits, zero padded')
    ctx = S.BytesDeserializationContext(s + bytes([0x5a]))
    d = B.BitsSerializer.ctx_deserialize(ctx)
    env.check(env.eq(d, b), 'round trip'); env.check(same(env, d, l), 'same bits')
    env.check(env.eq(ctx.read_bytes(1), bytes([0x5a])), 'exactly the encoding is consumed')
    env.check(env.eq(B.BitsSerializer.serialize(d), s), 'stable')
    env.obs('s', s)
    for k in range(len(s)):
        r = env.call(B.BitsSerializer.deserialize, s[:k])
        env.check(not r.ok and r.raised(S.DeserializationError), 'missing bytes')
    env.reach('done')

def canonical(env, n, m):
    B = env.mod('proofmarshal.bits')
    a, _ = mk(env, 'a', n, 1); b, _ = mk(env, 'b', m)
    env.check(env.iff(env.eq(B.BitsSerializer.serialize(a), B.BitsSerializer.serialize(b)), a == b), 'same bytes exactly when equal')
    env.reach('done')

def padding(env, n):
    B = env.mod('proofmarshal.bits'); S = env.mod('proofmarshal.serialize')
    buf = env.bytes('buf', (n + 7) // 8)
    r = env.call(B.BitsSerializer.deserialize, leb128(n) + buf)
    good = n % 8 == 0 or env.eq(buf[-1] & ((1 << (8 - n % 8)) - 1), 0)
    env.check(env.iff(r.ok, good), 'accepted exactly when the padding is zero')
    if r.ok: env.check(same(env, r.value, [(buf[i // 8] >> (7 - i % 8)) & 1 for i in range(n)]), 'the bits'); env.reach('ok')
    else: env.check(r.raised(S.DeserializationError), 'deserialization error'); env.reach('bad')

def wrong(env):
    B = env.mod('proofmarshal.bits'); S = env.mod('proofmarshal.serialize')
    for v in (None, [1, 0], b'a', 'a', 3, True, (1,)):
        r = env.call(B.BitsSerializer.check_instance, v)
        env.check(not r.ok and r.raised(S.SerializerTypeError), 'refused as not a bit string')
    env.check(env.call(B.BitsSerializer.check_instance, B.Bits([1])).ok, 'bits accepted')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in list(range(0, 71 if T else 35)) + list(range(127, 146 if T else 131)):
        for x in (0, 1): cs.append(dict(name='rt_%d_%d' % (n, x), fn='rt', args=dict(n=n, extra=x), reach=['done'], weight=n))
        cs.append(dict(name='padding_%d' % n, fn='padding', args=dict(n=n), reach=['ok', 'bad'] if n % 8 else ['ok']))
    for n in (0, 1, 2, 7, 8, 9, 15, 16, 17):
        for m in (0, 1, 2, 7, 8, 9, 15, 16, 17): cs.append(dict(name='canonical_%d_%d' % (n, m), fn='canonical', args=dict(n=n, m=m), reach=['done']))
    cs.append(dict(name='wrong', fn='wrong'))
    return cs
