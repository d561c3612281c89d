"""C12 merbinner tree as a map"""
from props._containers import tree_type, key, Ref
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'proofmarshal.merbinnertree']
BOUNDS = 'arbitrary sequences of 3 put/remove operations over arbitrary 3-bit keys, of 4 over 2-bit keys and of 2 over 8- and 16-bit keys (thorough 4, 5 and 3), then lookup of an arbitrary key; sequences of 2 operations over keys of different lengths of 0..3 bits (thorough also 3 over 0..2 bits); trees of up to 4 arbitrary keys of 2..3 bits built by the constructor; three 32-byte keys with 256-bit prefixes that differ in one bit at 0, 7, 8, 63, 64, 200 or 255; values symbolic'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def agrees(env, m, ref, probes):
    env.check(len(m) == len(ref.items), 'length')
    ks = list(m.keys()); vs = list(m.values()); its = list(m.items())
    env.check(len(ks) == len(vs) == len(its) == len(ref.items), 'number of keys, values, items')
    env.check(env.land(*[env.land(env.eq(i[0], k), env.eq(i[1], v)) for i, k, v in zip(its, ks, vs)]), 'items pair keys and values')
    env.check(env.eq(list(m), ks), 'iteration gives the keys')
    for k, v in ref.items:
        env.check(env.lor(*[env.land(env.eq(i[0], k), env.eq(i[1], v)) for i in its]), 'every pair is an item')
        env.check(env.eq(m[k], v), 'lookup of a stored key')
        env.check(k in m, 'membership of a stored key')
    for q in probes:
        i = ref.find(q)
        r = env.call(lambda: m[q])
        env.check((q in m) == (i >= 0), 'membership')
        if i >= 0: env.check(r.ok and env.eq(r.value, ref.items[i][1]), 'lookup')
        else: env.check(not r.ok and r.raised(KeyError), 'lookup of a missing key raises KeyError')

def ops(env, nops, nbits, width):
    M = tree_type(env, nbits, width)
    m = M(); ref = Ref(env)
    versions = [(m, ref)]
    probe = key(env, 'q', nbits, width)
    for j in range(nops):
        k = key(env, 'k%d' % j, nbits, width)
        if env.bool('put%d' % j):
            v = env.int('v%d' % j, 0, 0xffff)
            m = m.put(k, v); ref = ref.put(k, v)
        else:
            r = env.call(m.remove, k); e = ref.remove(k)
            if e is None: env.check(not r.ok and r.raised(KeyError), 'removing a missing key raises KeyError'); env.reach('missing')
            else:
                env.check(r.ok, 'removing a stored key works')
                m = r.value; ref = e; env.reach('removed')
        versions.append((m, ref))
    agrees(env, m, ref, [probe])
    for m, ref in versions[:-1]:
        env.check(len(m) == len(ref.items) and env.land(*[env.land(k in m, env.eq(m[k], v)) for k, v in ref.items]), 'earlier versions are unchanged')
    env.reach('done')

def construct(env, n, nbits):
    """constructor from pairs and from a mapping, with repeated keys"""
    M = tree_type(env, nbits, ser=env.mod('proofmarshal.serialize').FixedBytes(2))
    ks = [key(env, 'k%d' % i, nbits) for i in range(n)]
    vals = [env.bytes('v%d' % i, 2) for i in range(n)]
    ref = Ref(env)
    for k, v in zip(ks, vals): ref = ref.put(k, v)
    m = M(zip(ks, vals))
    agrees(env, m, ref, [])
    class Mapping:
        def items(self): return iter(ref.items)
    m2 = M(Mapping())
    agrees(env, m2, ref, [])
    env.check(m == m2, 'equal')
    env.check(env.eq(M(m).hash, m.hash), 'copy')
    env.reach('done')

def long_keys(env, pos):
    """three keys of 256 bits with a long common prefix"""
    M = tree_type(env, 256, 32)
    base = bytes([0xa5 ^ (7 * i & 0xff) for i in range(32)])
    def flip(k, *ps):
        k = bytearray(k)
        for p in ps: k[p // 8] ^= 1 << (p % 8)
        return bytes(k)
    ks = [base, flip(base, pos), flip(base, pos, (pos + 17) % 256)]
    other = [flip(base, (pos + 1) % 256), flip(base, pos, 0 if pos else 1)]
    vs = [env.int('v%d' % i, 0, 0xffff) for i in range(3)]
    o = [[0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0]][env.choice('order', 4)]
    m = M(); ref = Ref(env)
    for i in o: m = m.put(ks[i], vs[i]); ref = ref.put(ks[i], vs[i])
    agrees(env, m, ref, other)
    d = env.choice('remove', 3)
    w = M([(ks[i], vs[i]) for i in range(3) if i != d])
    m = m.remove(ks[d]); ref = ref.remove(ks[d])
    agrees(env, m, ref, other + [ks[d]])
    env.check(env.eq(m.hash, w.hash), 'independent of the history')
    env.check(env.call(m.remove, ks[d]).raised(KeyError), 'gone')
    env.reach('done')

def vtree(env):
    """keys of different lengths: a length byte and the bits"""
    M = env.mod('proofmarshal.merbinnertree'); S = env.mod('proofmarshal.serialize'); B = env.mod('proofmarshal.bits')
    @M.make_MerbinnerTree_subclass
    class VTree(M.MerbinnerTree):
        __slots__ = []
        HASHTAG = S.HashTag('3bb60984-0486-41ab-aad6-bd5b1586bd14')
        KEY_SERIALIZER = S.FixedBytes(2)
        VALUE_SERIALIZER = S.UInt16
        @staticmethod
        def key2prefix(key): return B.Bits.from_bytes(key[1:1 + (key[0] + 7) // 8], key[0])
    return VTree

def vkey(env, name, lens):
    n = lens[env.choice(name + '.len', len(lens))]
    d = env.bytes(name, 1)
    env.assume(d[0] & (255 >> n) == 0)
    return bytes([n]) + d

def lengths(env, nops, top):
    """keys of different lengths: as long as none is the beginning of another the tree is a map; one that is gets refused"""
    M = vtree(env); m = M(); ref = Ref(env)
    def starts(a, b):
        return a[0] < b[0] and env.eq(a[1] >> (8 - a[0]), b[1] >> (8 - a[0]))
    for j in range(nops):
        k = vkey(env, 'k%d' % j, list(range(top + 1)))
        before = m.hash
        if j < nops - 1 or env.bool('put'):
            v = env.int('v%d' % j, 0, 0xffff)
            clash = env.lor(*[env.lor(starts(k, q), starts(q, k)) for q, _ in ref.items])
            r = env.call(m.put, k, v)
            env.check(env.iff(r.ok, env.lnot(clash)), 'refused exactly when one key is the beginning of another')
            if r.ok: m = r.value; ref = ref.put(k, v); env.reach('put')
            else: env.check(env.eq(m.hash, before), 'unchanged'); env.reach('clash')
        else:
            r = env.call(m.remove, k); e = ref.remove(k)
            if e is None: env.check(not r.ok and r.raised(KeyError), 'removing a missing key raises KeyError'); env.reach('missing')
            else:
                env.check(r.ok, 'removing a stored key works')
                m = r.value; ref = e; env.reach('removed')
    agrees(env, m, ref, [vkey(env, 'q', list(range(top + 1)))])
    w = M(list(reversed(ref.items)))
    env.check(env.eq(w.hash, m.hash), 'independent of the order')

def refuse(env):
    M = tree_type(env)
    k = key(env, 'k'); v = env.int('v', 0, 0xffff)
    m = M([(k, v)])
    for bad in (-1, 1 << 16, None, 'x'):
        env.check(not env.call(m.put, k, bad).ok, 'ill-typed value')
    env.check(env.eq(m[k], v) and len(m) == 1, 'unchanged')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for nops, nbits, w in ([(1, 1, 1), (2, 2, 1), (3, 2, 1), (3, 3, 1), (4, 2, 1), (2, 8, 1), (2, 16, 2)] + ([(5, 2, 1), (4, 3, 1), (3, 8, 1)] if T else [])):
        cs.append(dict(name='ops_%d_of_%d_bits' % (nops, nbits), fn='ops', args=dict(nops=nops, nbits=nbits, width=w), reach=['done', 'missing'] + (['removed'] if nops > 1 else []), weight=nops * nbits))
    for n, nb in [(0, 2), (1, 2), (2, 2), (3, 2), (4, 2), (3, 3)] + ([(5, 2), (4, 3)] if T else []):
        cs.append(dict(name='construct_%d_of_%d_bits' % (n, nb), fn='construct', args=dict(n=n, nbits=nb), reach=['done'], weight=n * nb))
    for n, top in ((1, 3), (2, 2), (2, 3)) + (((3, 2),) if T else ()): cs.append(dict(name='lengths_%d_of_%d_bits' % (n, top), fn='lengths', args=dict(nops=n, top=top), reach=['missing'] + (['put', 'clash', 'removed'] if n > 1 else []), weight=n * top * 2))
    cs.append(dict(name='refuse', fn='refuse', reach=['done']))
    for p in (0, 7, 8, 63, 64, 200, 255): cs.append(dict(name='long_keys_%d' % p, fn='long_keys', args=dict(pos=p), reach=['done']))
    return cs
