"""Proof types shared by the proofmarshal harnesses (declared in the way the library documents)."""
import io

def leb128(v):
    out = []
    while v > 0x7f:
        out.append((v & 0x7f) | 0x80)
        v = v >> 7
    out.append(v)
    return bytes(out)

class T: wide = None

def types(env):
    """a family of proof types: plain, nested, variants, union"""
    P = env.mod('proofmarshal.proof'); S = env.mod('proofmarshal.serialize'); B = env.mod('proofmarshal.bits')
    t = T()
    class Foo(P.Proof):
        HASHTAG = S.HashTag('19e5278a-76cc-479c-8713-e7648636979c')
        __slots__ = ['n']
        SERIALIZED_ATTRS = [('n', S.UInt8)]
    class Foo2(P.Proof):
        "same attributes as Foo, other type"
        HASHTAG = S.HashTag('29e5278a-76cc-479c-8713-e7648636979c')
        __slots__ = ['n']
        SERIALIZED_ATTRS = [('n', S.UInt8)]
    class Bar(P.Proof):
        HASHTAG = S.HashTag('4c3cce55-0a90-404e-baf3-a6720205e8ab')
        __slots__ = ['left', 'right', 'num']
        SERIALIZED_ATTRS = [('left', Foo), ('right', Foo), ('num', S.UInt16)]
    class Plain(P.Proof):
        "one attribute of each primitive kind"
        HASHTAG = S.HashTag('5c3cce55-0a90-404e-baf3-a6720205e8ab')
        __slots__ = ['flag', 'u8', 'u32', 'fix', 'var', 'bits']
        SERIALIZED_ATTRS = [('flag', S.SerBool), ('u8', S.UInt8), ('u32', S.UInt32), ('fix', S.FixedBytes(3)), ('var', S.VarBytes(4)), ('bits', B.BitsSerializer)]
    class Runs(P.Proof):
        "neighbouring attributes of variable length"
        HASHTAG = S.HashTag('9f3cce55-0a90-404e-baf3-a6720205e8ab')
        __slots__ = ['a', 'b', 'x', 'y']
        SERIALIZED_ATTRS = [('a', S.VarBytes(4)), ('b', S.VarBytes(4)), ('x', B.BitsSerializer), ('y', B.BitsSerializer)]
    class Deep(P.Proof):
        HASHTAG = S.HashTag('6c3cce55-0a90-404e-baf3-a6720205e8ab')
        __slots__ = ['bar', 'foo', 'tail']
        SERIALIZED_ATTRS = [('bar', Bar), ('foo', Foo), ('tail', S.UInt8)]
    class Var(P.VarProof):
        HASHTAG = S.HashTag('7c3cce55-0a90-404e-baf3-a6720205e8ab')
        __slots__ = []
    @Var.declare_variant
    class VEmpty(Var):
        SUB_HASHTAG = S.HashTag('390de307-8787-47b7-b25d-250aba02b1e5')
        __slots__ = []
        SERIALIZED_ATTRS = []
    @Var.declare_variant
    class VLeaf(Var):
        SUB_HASHTAG = S.HashTag('4ea09c8e-87f5-4978-a829-78d42ab8638a')
        __slots__ = ['n']
        SERIALIZED_ATTRS = [('n', S.UInt8)]
    @Var.declare_variant
    class VInner(Var):
        SUB_HASHTAG = S.HashTag('a7ca25ce-8fee-4063-b022-96b2dbcb392e')
        __slots__ = ['left', 'right']
        SERIALIZED_ATTRS = [('left', Var), ('right', Var)]
    @Var.declare_variant
    class VLast(Var):
        SUB_HASHTAG = S.HashTag('b7ca25ce-8fee-4063-b022-96b2dbcb392e')
        __slots__ = []
        SERIALIZED_ATTRS = []
    U = P.ProofUnion(Foo, Bar)
    class Holder(P.Proof):
        HASHTAG = S.HashTag('8c3cce55-0a90-404e-baf3-a6720205e8ab')
        __slots__ = ['a', 'b']
        SERIALIZED_ATTRS = [('a', U), ('b', S.UInt8)]
    for k, v in list(locals().items()): setattr(t, k, v)
    return t

def num(env, t, name, hi):
    """an arbitrary integer; where t.wide is given, only those named in it cover more than one encoding length"""
    if t.wide is None or name in t.wide or name.split('.', 1)[-1] in t.wide: return env.int(name, 0, hi)
    return env.int(name, 1, 127)

def ints(kind):
    """names of the integer attributes of a kind"""
    return dict(bar=['l.n', 'r.n', 'num'], deep=['b.l.n', 'b.r.n', 'b.num', 'f.n', 'tail'], vinner=['l.n'], vdeep=['l.l.n', 'r.n'],
                holdfoo=['a.n', 'b'], holdbar=['a.l.n', 'a.r.n', 'a.num', 'b'], vempty=[], vlast=[]).get(kind, [] if kind.startswith('runs') else ['u8', 'u32'] if kind.startswith('plain') else ['n'])

def splits(kind):
    """case splits over which integers range over every encoding length: all of them for small kinds, one at a time for large ones"""
    n = ints(kind)
    return [None] if len(n) <= 2 else [[]] + [[i] for i in n]

def make(env, t, kind, p=''):
    """a structure of the given kind with symbolic contents"""
    if kind == 'foo': return t.Foo(n=num(env, t, p + 'n', 255))
    if kind == 'foo2': return t.Foo2(n=num(env, t, p + 'n', 255))
    if kind == 'bar': return t.Bar(left=make(env, t, 'foo', p + 'l.'), right=make(env, t, 'foo', p + 'r.'), num=num(env, t, p + 'num', 65535))
    if kind.startswith('plain'):
        nb = int(kind[5:] or 5)
        return t.Plain(flag=env.bool(p + 'flag'), u8=num(env, t, p + 'u8', 255), u32=num(env, t, p + 'u32', 0xffffffff), fix=env.bytes(p + 'fix', 3),
                       var=env.bytes(p + 'var', nb % 4), bits=t.B.Bits.from_bytes(env.bytes(p + 'bits', (nb + 7) // 8), nb))
    if kind.startswith('runs'):
        a, b, c, d = [int(x) for x in kind[4:]]
        return t.Runs(a=env.bytes(p + 'a', a), b=env.bytes(p + 'b', b), x=t.B.Bits.from_bytes(env.bytes(p + 'x', (c + 7) // 8), c), y=t.B.Bits.from_bytes(env.bytes(p + 'y', (d + 7) // 8), d))
    if kind == 'deep': return t.Deep(bar=make(env, t, 'bar', p + 'b.'), foo=make(env, t, 'foo', p + 'f.'), tail=num(env, t, p + 'tail', 255))
    if kind == 'vempty': return t.VEmpty()
    if kind == 'vlast': return t.VLast()
    if kind == 'vleaf': return t.VLeaf(n=num(env, t, p + 'n', 255))
    if kind == 'vinner': return t.VInner(left=make(env, t, 'vleaf', p + 'l.'), right=make(env, t, 'vempty', p + 'r.'))
    if kind == 'vdeep': return t.VInner(left=make(env, t, 'vinner', p + 'l.'), right=make(env, t, 'vleaf', p + 'r.'))
    if kind == 'holdfoo': return t.Holder(a=make(env, t, 'foo', p + 'a.'), b=num(env, t, p + 'b', 255))
    if kind == 'holdbar': return t.Holder(a=make(env, t, 'bar', p + 'a.'), b=num(env, t, p + 'b', 255))
    raise ValueError(kind)

KINDS = ['foo', 'bar', 'plain0', 'plain5', 'plain8', 'plain11', 'deep', 'vempty', 'vlast', 'vleaf', 'vinner', 'vdeep', 'holdfoo', 'holdbar', 'runs1279']

def decl(t, kind):
    """the type that declares (deserialises) the kind"""
    if kind.startswith('plain'): return t.Plain
    if kind.startswith('runs'): return t.Runs
    if kind.startswith('v'): return t.Var
    if kind.startswith('hold'): return t.Holder
    return dict(foo=t.Foo, foo2=t.Foo2, bar=t.Bar, deep=t.Deep)[kind]

def same(env, t, a, b):
    """deep equality of two unpruned structures, attribute by attribute (not relying on the library's ==)"""
    P = t.P
    if isinstance(a, P.Proof):
        if a.__class__ is not b.__class__: return False
        return env.land(*[same(env, t, getattr(a, n), getattr(b, n)) for n, _ in a.SERIALIZED_ATTRS])
    if isinstance(a, t.B.Bits):
        return isinstance(b, t.B.Bits) and len(a) == len(b) and env.land(*[env.eq(x, y) for x, y in zip(a, b)])
    return env.eq(a, b)

def nodes(t, x, path=()):
    """every attribute chain of a structure: (path, is a proof)"""
    out = []
    for n, ser in x.SERIALIZED_ATTRS:
        v = getattr(x, n)
        p = path + (n,)
        isp = isinstance(v, t.P.Proof)
        out.append((p, isp))
        if isp: out.extend(nodes(t, v, p))
    return out

def get(x, path):
    for n in path: x = getattr(x, n)
    return x
