"""C06 proof structures round-trip"""
from props import _pm
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits']
BOUNDS = 'the structure kinds of _pm (plain attributes of every primitive kind, nested, variants, union), all attribute values symbolic; bit strings of 0, 5, 8, 11 bits; for distinctness of encodings of kinds with more than two integers one integer at a time is unrestricted and the others are one-byte (1..127); every missing attribute and a fixed list of ill-typed values per attribute'

def rt(env, kind):
    t = _pm.types(env)
    x = _pm.make(env, t, kind)
    b = x.serialize()
    c = _pm.decl(t, kind)
    ctx = t.S.BytesDeserializationContext(b + bytes([0x77]))
    y = c.ctx_deserialize(ctx)
    env.check(env.eq(ctx.read_bytes(1), bytes([0x77])), 'exactly the encoding is consumed')
    env.check(y.__class__ is x.__class__, 'same concrete type')
    env.check(_pm.same(env, t, x, y), 'same attribute values')
    env.check(env.eq(x.hash, y.hash), 'same hash')
    env.check(env.land(x == y, env.lnot(x != y)), 'equal')
    env.check(hash(x) == hash(y), 'same Python hash')
    env.check(env.eq(y.serialize(), b), 'same bytes again')
    env.check(not y.is_pruned and not y.is_fully_pruned, 'nothing is pruned')
    z = c.deserialize(b)
    env.check(_pm.same(env, t, x, z), 'deserialize from bytes')
    # the concrete variant type can deserialise as well
    if x.__class__ is not c: env.check(_pm.same(env, t, x, x.__class__.deserialize(b)), 'deserialised by the concrete type')
    env.reach('done')

def encoding(env, kind, wide):
    """the bytes are the attribute encodings in declaration order, distinct for distinct structures"""
    t = _pm.types(env); t.wide = wide
    x = _pm.make(env, t, kind, 'x.'); y = _pm.make(env, t, kind, 'y.')
    env.check(env.iff(env.eq(x.serialize(), y.serialize()), _pm.same(env, t, x, y)), 'same bytes exactly when same contents')
    env.reach('done')

def union(env):
    t = _pm.types(env)
    f = _pm.make(env, t, 'foo', 'f.'); b = _pm.make(env, t, 'bar', 'b.')
    for x in (f, b):
        s = t.U.serialize(x)
        y = t.U.deserialize(s)
        env.check(y.__class__ is x.__class__ and _pm.same(env, t, x, y), 'union member round trip')
        env.check(env.eq(t.U.get_hash(y), x.hash), 'hash through the union')
        t.U.check_instance(x)
    env.check(env.lnot(env.eq(t.U.serialize(f), t.U.serialize(b))), 'members are told apart')
    for x in (_pm.make(env, t, 'foo2', 'g.'), _pm.make(env, t, 'vleaf', 'v.'), None, 3, b'a'):
        r = env.call(t.U.check_instance, x)
        env.check(not r.ok and r.raised(t.S.SerializerTypeError), 'other types are refused')
    r = env.call(t.U.serialize, _pm.make(env, t, 'foo2', 'h.'))
    env.check(not r.ok and r.raised(t.S.SerializerTypeError), 'other types are not serialised')
    env.reach('done')

def refuse(env, kind):
    t = _pm.types(env)
    x = _pm.make(env, t, kind)
    good = {n: getattr(x, n) for n, s in x.SERIALIZED_ATTRS}
    c = x.__class__
    y = t.P.Proof.__new__(c, **good)
    env.check(_pm.same(env, t, x, y), 'all attributes given')
    bads = [None, 'a', 1.5, [1], (), -1, 1 << 70, True, b'abcde' * 9, object()]
    bads += [_pm.make(env, t, 'foo2', 'o.'), t.B.Bits([1, 0]), t.VEmpty(), t.Deep]
    for n, ser in x.SERIALIZED_ATTRS:
        kw = dict(good); del kw[n]
        env.check(not env.call(lambda: t.P.Proof.__new__(c, **kw)).ok, 'missing %s' % n)
        for i, b in enumerate(bads):
            if ser is t.S.SerBool and b is True: continue
            if ser is t.B.BitsSerializer and isinstance(b, t.B.Bits): continue
            if ser is t.Var and isinstance(b, t.Var): continue
            kw = dict(good); kw[n] = b
            env.check(not env.call(lambda: t.P.Proof.__new__(c, **kw)).ok, 'ill-typed value %d for %s' % (i, n))
        # out-of-range integers
        if ser in (t.S.UInt8, t.S.UInt16, t.S.UInt32):
            v = env.int('v.' + n, -(1 << 40), 1 << 40)
            kw = dict(good); kw[n] = v
            r = env.call(lambda: t.P.Proof.__new__(c, **kw))
            env.check(env.iff(r.ok, env.land(v >= 0, v <= ser.MAX_INT)), 'integer attribute accepted exactly when in range')
            if r.ok: env.check(env.eq(getattr(r.value, n), v), 'value kept')
    env.reach('done')

def inheritance(env, first):
    """a structure type derived from another one has its own attributes, whichever is used first"""
    t = _pm.types(env)
    class Base(t.P.Proof):
        HASHTAG = t.S.HashTag('9c3cce55-0a90-404e-baf3-a6720205e8ab')
        SERIALIZED_ATTRS = [('a', t.S.UInt8)]
    class Derived(Base):
        HASHTAG = t.S.HashTag('ac3cce55-0a90-404e-baf3-a6720205e8ab')
        SERIALIZED_ATTRS = [('a', t.S.UInt8), ('b', t.S.UInt8)]
    a = env.int('a', 0, 255); b = env.int('b', 0, 255)
    if first: x = Base(a=a)
    y = Derived(a=a, b=b)
    if not first: x = Base(a=a)
    env.check(env.land(env.eq(y.a, a), env.eq(y.b, b), env.eq(x.a, a)), 'attributes')
    z = Derived.deserialize(y.serialize())
    env.check(env.land(env.eq(z.a, a), env.eq(z.b, b)), 'derived round trip')
    env.check(env.eq(Base.deserialize(x.serialize()).a, a), 'base round trip')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    kinds = _pm.KINDS + (['plain%d' % n for n in (1, 2, 3, 4, 6, 7, 9, 10, 12, 16)] if T else [])
    cs = [dict(name='rt_' + k, fn='rt', args=dict(kind=k), reach=['done']) for k in kinds]
    cs += [dict(name='encoding_%s_%d' % (k, i), fn='encoding', args=dict(kind=k, wide=w), reach=['done']) for k in kinds for i, w in enumerate(_pm.splits(k))]
    cs += [dict(name='refuse_' + k, fn='refuse', args=dict(kind=k), reach=['done']) for k in kinds if k not in ('vempty', 'vlast')]
    cs += [dict(name='union', fn='union', reach=['done'])]
    cs += [dict(name='inheritance_%d' % i, fn='inheritance', args=dict(first=i), reach=['done']) for i in (0, 1)]
    return cs
