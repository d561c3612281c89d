"""Merkle container types for the harnesses."""
def mmr_type(env, tag='738b5a85-d6f1-4873-9c21-300a01166f1d', ser=None):
    M = env.mod('proofmarshal.mmr'); S = env.mod('proofmarshal.serialize')
    @M.make_mmr_subclass
    class IntMMR(M.MerkleMountainRange):
        __slots__ = []
        HASHTAG = S.HashTag(tag)
        VALUE_SERIALIZER = ser or S.UInt16
    return IntMMR

def tree_type(env, nbits=8, width=1, tag='2bb60984-0486-41ab-aad6-bd5b1586bd14', ser=None):
    """a merbinner tree over keys of width bytes of which the first nbits bits are the prefix (the rest is zero)"""
    M = env.mod('proofmarshal.merbinnertree'); S = env.mod('proofmarshal.serialize'); B = env.mod('proofmarshal.bits')
    @M.make_MerbinnerTree_subclass
    class IntTree(M.MerbinnerTree):
        __slots__ = []
        HASHTAG = S.HashTag(tag)
        KEY_SERIALIZER = S.FixedBytes(width)
        VALUE_SERIALIZER = ser or S.UInt16
        @staticmethod
        def key2prefix(key): return B.Bits.from_bytes(key, nbits)
    return IntTree

def key(env, name, nbits=8, width=1):
    """an arbitrary key of the domain: width bytes, all bits beyond nbits zero"""
    k = env.bytes(name, width)
    B = env.mod('proofmarshal.bits')
    if nbits < 8 * width:
        for i, v in enumerate(k):
            left = nbits - 8 * i
            if left >= 8: continue
            env.assume(v & ((1 << (8 - max(0, left))) - 1) == 0)
    return k

def build(env, M, vals):
    """a range over vals built by an arbitrary split between constructor, extend, a slice of a longer one, and append"""
    n = len(vals)
    a = env.choice('split.a', n + 1)
    b = a + env.choice('split.b', 3 if n - a >= 2 else n - a + 1)
    m = M(vals[:a])
    if env.bool('via.extend'): m = m.extend(vals[a:b])
    else: m = m.extend(iter(vals[a:b]))
    for v in vals[b:]: m = m.append(v)
    return m

class Ref:
    """a plain map as an association list (keys compared through env.eq, so symbolic keys work)"""
    def __init__(self, env, items=()): self.env = env; self.items = list(items)
    def find(self, k):
        for i, (q, v) in enumerate(self.items):
            if self.env.eq(q, k): return i
        return -1
    def put(self, k, v):
        i = self.find(k)
        r = Ref(self.env, self.items)
        if i >= 0: r.items[i] = (k, v)
        else: r.items.append((k, v))
        return r
    def remove(self, k):
        i = self.find(k)
        if i < 0: return None
        return Ref(self.env, self.items[:i] + self.items[i + 1:])
