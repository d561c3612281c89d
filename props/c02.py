"""C02 decoding untrusted bytes"""
from props import _pm
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'proofmarshal.mmr', 'proofmarshal.merbinnertree', 'proofchains.core.uniquebits.singleuseseal']
BOUNDS = 'every byte string of the listed lengths (0..12 primitives and bit strings, 0..10 proofs, variants and unions; thorough: more); every strict prefix of valid encodings of the structure kinds of _pm'
ASSUMPTIONS = ['recursion depth is bounded by the input lengths explored']

def prim(env, kind, n):
    S = env.mod('proofmarshal.serialize'); B = env.mod('proofmarshal.bits')
    b = env.bytes('b', n)
    c = dict(b=S.SerBool, u8=S.UInt8, u16=S.UInt16, u32=S.UInt32, u64=S.UInt64, f0=S.FixedBytes(0), f4=S.FixedBytes(4), v4=S.VarBytes(4), v25=S.VarBytes(2, 5), bits=B.BitsSerializer)[kind]
    ctx = S.BytesDeserializationContext(b)
    r = env.call(c.ctx_deserialize, ctx)
    if not r.ok:
        env.check(r.raised(S.DeserializationError), 'only deserialization errors escape (got %s)' % r.name)
        if n == 0: env.check(r.raised(S.TruncationError), 'nothing to read is truncation')
        env.reach('err')
        # whether the input really was bad
        env.check(env.lnot(valid(env, kind, b)), 'a valid encoding was refused')
        return
    env.reach('ok')
    env.check(valid(env, kind, b), 'an invalid encoding was accepted')
    v = r.value
    if kind == 'b': env.check(v is True or v is False, 'a bool')
    elif kind[0] == 'u': env.check(env.land(v >= 0, v < (1 << int(kind[1:]))), 'in range')
    elif kind == 'bits': env.check(isinstance(v, B.Bits), 'bits')
    else:
        env.check(isinstance(v, bytes), 'bytes')
        lo, hi = dict(f0=(0, 0), f4=(4, 4), v4=(0, 4), v25=(2, 5))[kind]
        env.check(lo <= len(v) <= hi, 'length in range')
    if kind != 'bits': c.check_instance(v)

def varuint(env, b):
    """(complete, value, length) of the LEB128 number at the start; forks on its length"""
    v = 0
    for i in range(len(b)):
        v = v | ((b[i] & 0x7f) << (7 * i))
        if b[i] < 0x80: return True, v, i + 1
    return False, 0, len(b)

def valid(env, kind, b):
    n = len(b)
    if kind == 'b': return n >= 1 and env.lor(b[0] == 0, b[0] == 0xff)
    if kind[0] == 'f': return n >= int(kind[1:])
    done, v, l = varuint(env, b)
    if not done: return False
    if kind[0] == 'u': return v < (1 << int(kind[1:]))
    if kind == 'bits':
        if v > 8 * (n - l): return False
        v = env.concrete(v)
        if v % 8 == 0: return True
        return (b[l + v // 8] & ((1 << (8 - v % 8)) - 1)) == 0
    lo, hi = dict(v4=(0, 4), v25=(2, 5))[kind]
    return env.land(v >= lo, v <= hi, v <= n - l)

def proof(env, kind, n, head=''):
    t = _pm.types(env)
    h = bytes.fromhex(head)
    b = h + env.bytes('b', n - len(h))
    c = t.U if kind == 'union' else getattr(t, kind)
    r = env.call(c.deserialize, b)
    if not r.ok:
        env.check(r.raised(t.S.DeserializationError), 'only deserialization errors escape (got %s)' % r.name)
        if n == 0: env.check(r.raised(t.S.TruncationError), 'nothing to read is truncation')
        env.reach('err')
        return
    env.reach('ok')
    v = r.value
    if kind == 'union': env.check(isinstance(v, (t.Foo, t.Bar)), 'a member of the union')
    else: env.check(isinstance(v, c), 'an instance of the declared type')
    wellformed(env, t, v)

def wellformed(env, t, v):
    if v.is_fully_pruned:
        env.check(len(v.data_hash) == 32, 'pruned structures carry a digest'); return
    for name, ser in v.SERIALIZED_ATTRS:
        a = getattr(v, name)
        if isinstance(a, t.P.Proof):
            if issubclass(ser, t.P.ProofUnion): env.check(isinstance(a, ser.UNION_CLASSES), 'member of the union')
            else: env.check(isinstance(a, ser), 'attribute of the declared type')
            wellformed(env, t, a)
        else:
            r = env.call(ser.check_instance, a)
            env.check(r.ok, 'attribute within the declared range')

def prefixes(env, kind):
    t = _pm.types(env)
    x = _pm.make(env, t, kind)
    c = _pm.decl(t, kind)
    b = x.serialize()
    for k in range(len(b)):
        r = env.call(c.deserialize, b[:k])
        env.check(not r.ok and r.raised(t.S.TruncationError), 'prefix of %d bytes is truncated' % k)
    env.check(env.call(c.deserialize, b).ok, 'the whole is accepted')
    p = x.prune().serialize()
    for k in range(0, len(p), 3):
        r = env.call(c.deserialize, p[:k])
        env.check(not r.ok and r.raised(t.S.TruncationError), 'prefix of %d bytes of the pruned form is truncated' % k)
    env.reach('done')

def primprefix(env, kind, n):
    S = env.mod('proofmarshal.serialize'); B = env.mod('proofmarshal.bits')
    if kind == 'u64': c = S.UInt64; b = c.serialize(env.int('v', 0, (1 << 64) - 1))
    elif kind == 'f': c = S.FixedBytes(n); b = c.serialize(env.bytes('v', n))
    elif kind == 'v': c = S.VarBytes(200); b = c.serialize(env.bytes('v', n))
    elif kind == 'bits': c = B.BitsSerializer; b = c.serialize(B.Bits.from_bytes(env.bytes('v', (n + 7) // 8), n))
    for k in range(len(b)):
        r = env.call(c.deserialize, b[:k])
        env.check(not r.ok and r.raised(S.TruncationError), 'prefix of %d bytes is truncated' % k)
    env.reach('done')

def container(env, kind, n):
    """Merkle containers and seal proofs from arbitrary bytes"""
    S = env.mod('proofmarshal.serialize')
    b = env.bytes('b', n)
    allowed = (S.DeserializationError,)
    if kind == 'mmr':
        M = env.mod('proofmarshal.mmr')
        @M.make_mmr_subclass
        class c(M.MerkleMountainRange):
            __slots__ = []
            HASHTAG = S.HashTag('738b5a85-d6f1-4873-9c21-300a01166f1d')
            VALUE_SERIALIZER = S.UInt64
    elif kind == 'tree':
        M = env.mod('proofmarshal.merbinnertree'); B = env.mod('proofmarshal.bits')
        @M.make_MerbinnerTree_subclass
        class c(M.MerbinnerTree):
            __slots__ = []
            HASHTAG = S.HashTag('2bb60984-0486-41ab-aad6-bd5b1586bd14')
            KEY_SERIALIZER = S.FixedBytes(1)
            VALUE_SERIALIZER = S.UInt8
            @staticmethod
            def key2prefix(key): return B.Bits.from_bytes(key)
    r = env.call(c.deserialize, b)
    if not r.ok:
        env.check(r.raised(allowed), 'only deserialization errors escape (got %s)' % r.name)
        env.reach('err')
    else:
        env.check(isinstance(r.value, c), 'an instance of the declared type')
        env.reach('ok')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for k in ('b', 'u8', 'u16', 'u32', 'u64', 'f0', 'f4', 'v4', 'v25', 'bits'):
        for n in range(0, 15 if T else 13):
            ok = n >= dict(f0=0, f4=4, v25=3).get(k, 1)
            cs.append(dict(name='prim_%s_%d' % (k, n), fn='prim', args=dict(kind=k, n=n), reach=(['ok'] if ok else ['err']), weight=n))
    for k in ('Foo', 'Bar', 'Plain', 'Deep', 'Var', 'union', 'Holder'):
        for n in list(range(0, 10 if T else 9)):
            cs.append(dict(name='proof_%s_%d' % (k, n), fn='proof', args=dict(kind=k, n=n), reach=[] if n else ['err'], weight=n))
    # a first pruned (digest) part, then arbitrary bytes
    for k, h, base in (('Foo', 'ff', 33), ('Bar', 'ff', 33), ('Bar', '00ff', 34), ('Deep', '00ff', 34), ('Var', 'ff', 34), ('Var', '0002ff01', 36), ('union', '01ff', 34), ('Holder', '0000ff', 35), ('Plain', 'ff', 33)):
        for n in range(base - 2, base + (8 if T else 6)):
            cs.append(dict(name='pruned_%s_%s_%d' % (k, h, n), fn='proof', args=dict(kind=k, n=n, head=h), reach=['err'] if n < base else [], weight=n))
    for k in _pm.KINDS: cs.append(dict(name='prefix_' + k, fn='prefixes', args=dict(kind=k), reach=['done']))
    for k, ns in (('u64', (0,)), ('f', (1, 5, 32)), ('v', (0, 1, 20, 130)), ('bits', (0, 1, 7, 8, 9, 16, 17, 130))):
        for n in ns: cs.append(dict(name='primprefix_%s_%d' % (k, n), fn='primprefix', args=dict(kind=k, n=n), reach=['done']))
    for k in ('mmr', 'tree'):
        for n in range(0, 11 if T else 9): cs.append(dict(name='%s_%d' % (k, n), fn='container', args=dict(kind=k, n=n), reach=['err'] if n == 0 else [], weight=n))
    return cs
