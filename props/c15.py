"""C15 tagged hashes are domain separated"""
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.mmr', 'proofmarshal.merbinnertree', 'proofmarshal.bits', 'proofchains.core.bitcoin',
           'proofchains.core.uniquebits.singleuseseal', 'proofchains.core.uniquebits.gumap']
BOUNDS = 'all pairs of 16-byte tags with all pairs of messages of 0..40 bytes (thorough 0..80, step 1); derivation of all pairs of tags with all pairs of sub-tags of 0, 15, 16, 17 and 32 bytes; all tags declared by the library with arbitrary user tags for its generic types'
ASSUMPTIONS = ['SHA-256 is an ideal injective function; for derived tags already in its first 16 bytes']

def tag(env, S, b): return bytes.__new__(S.HashTag, b)

def pair(env, n, m):
    S = env.mod('proofmarshal.serialize')
    a = env.bytes('a', 16); b = env.bytes('b', 16)
    x = env.bytes('x', n); y = env.bytes('y', m)
    p = tag(env, S, a); q = tag(env, S, b)
    dx = p(x).digest(); dy = q(y).digest()
    env.check(len(dx) == 32, 'digest size')
    env.check(env.iff(env.eq(dx, dy), n == m and env.land(env.eq(a, b), env.eq(x, y))), 'equal digests exactly for equal tags and messages')
    h = p(); h.update(x)
    env.check(env.eq(h.digest(), dx), 'message in one piece or more')
    env.check(env.eq(p(x).digest(), dx), 'deterministic')
    env.reach('done')

def derive(env, n, m):
    S = env.mod('proofmarshal.serialize')
    a = env.bytes('a', 16); b = env.bytes('b', 16); s = env.bytes('s', n); t = env.bytes('t', m)
    p = tag(env, S, a).derive(s); q = tag(env, S, b).derive(t)
    env.check(isinstance(p, S.HashTag) and len(p) == 16, 'a derived tag is a tag')
    env.check(env.iff(env.eq(bytes(p), bytes(q)), n == m and env.land(env.eq(a, b), env.eq(s, t))), 'derived tags are equal exactly for equal origins')
    x = env.bytes('x', 5)
    env.check(env.iff(env.eq(p(x).digest(), q(x).digest()), n == m and env.land(env.eq(a, b), env.eq(s, t))), 'and so are the digests under them')
    env.reach('done')

def derive_twice(env):
    S = env.mod('proofmarshal.serialize')
    a = env.bytes('a', 16); s = env.bytes('s', 16); t = env.bytes('t', 16)
    env.check(env.iff(env.eq(bytes(tag(env, S, a).derive(s).derive(t)), bytes(tag(env, S, a).derive(t).derive(s))), env.eq(s, t)), 'order of derivation matters')
    env.check(env.lnot(env.eq(bytes(tag(env, S, a).derive(s).derive(t)), bytes(tag(env, S, a).derive(s + t)))), 'nested and joint derivation differ')
    env.reach('done')

def size(env):
    S = env.mod('proofmarshal.serialize')
    T = S.HashTag('19e5278a-76cc-479c-8713-e7648636979c')
    env.check(bytes(T) == bytes.fromhex('19e5278a76cc479c8713e7648636979c') and str(T) == '19e5278a-76cc-479c-8713-e7648636979c', 'text form')
    env.check(S.HashTag(str(T)) == T, 'text round trip')
    for bad in ('', '19e5278a', '19e5278a-76cc-479c-8713-e7648636979', '19e5278a-76cc-479c-8713-e7648636979c0', 'x9e5278a-76cc-479c-8713-e7648636979c'):
        r = env.call(S.HashTag, bad)
        env.check(not r.ok and r.raised(ValueError), 'refused')
    env.reach('done')

def declared(env):
    """the tags of every proof type of the library, generic ones instantiated under two arbitrary user tags"""
    S = env.mod('proofmarshal.serialize')
    P = env.mod('proofmarshal.proof'); G = env.mod('proofchains.core.uniquebits.gumap'); U = env.mod('proofchains.core.uniquebits.singleuseseal'); X = env.mod('proofchains.core.bitcoin')
    M = env.mod('proofmarshal.mmr'); T = env.mod('proofmarshal.merbinnertree')
    tags = [(c.__name__, bytes(c.HASHTAG)) for c in (U.FakeSingleUseSeal, U.FakeSealWitness, U.BitcoinSingleUseSeal, U.BitcoinSealWitness, X.OutPointProof, X.TxInProof, X.TxOutProof)]
    env.check(len({t for n, t in tags}) == len(tags), 'the plain proof types have different tags')
    ta = env.bytes('ta', 16); tb = env.bytes('tb', 16)
    env.assume(env.lnot(env.eq(ta, tb)))
    der = []
    subs = []
    for nm, t in (('A', ta), ('B', tb)):
        for base, make, extra in ((M.MerkleMountainRange, M.make_mmr_subclass, dict(VALUE_SERIALIZER=S.UInt8)), (T.MerbinnerTree, T.make_MerbinnerTree_subclass, dict(KEY_SERIALIZER=S.FixedBytes(2), VALUE_SERIALIZER=S.UInt8)),
                                  (G.GuMap, G.make_GuMap_subclass, dict(KEY_SERIALIZER=S.FixedBytes(2), VALUE_SERIALIZER=S.UInt8, SEAL_CLASS=U.BitcoinSingleUseSeal, WITNESS_CLASS=U.BitcoinSealWitness))):
            c = make(type(nm + base.__name__, (base,), dict(extra, HASHTAG=tag(env, S, t), __slots__=[])))
            for v in c.UNION_CLASSES:
                der.append((v.__name__, bytes(v.HASHTAG)))
                if nm == 'A': subs.append(bytes(v.SUB_HASHTAG))
    env.check(len(set(subs)) == len(subs), 'the variants have different sub-tags')
    for i in range(len(der)):
        env.check(len(der[i][1]) == 16, 'size')
        for j in range(i): env.check(env.lnot(env.eq(der[i][1], der[j][1])), 'variants %s and %s have different tags' % (der[i][0], der[j][0]))
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    ns = list(range(81)) if T else [0, 1, 15, 16, 17, 31, 32, 33, 39, 40]
    cs = [dict(name='pair_%d_%d' % (n, m), fn='pair', args=dict(n=n, m=m), reach=['done']) for n in ns for m in ns if m <= n]
    ds = [0, 15, 16, 17, 32]
    o = dict(hash_prefix=16)
    cs += [dict(name='derive_%d_%d' % (n, m), fn='derive', args=dict(n=n, m=m), reach=['done'], opts=o) for n in ds for m in ds if m <= n]
    cs += [dict(name='derive_twice', fn='derive_twice', reach=['done'], opts=o), dict(name='size', fn='size', reach=['done']), dict(name='declared', fn='declared', reach=['done'], opts=o)]
    return cs
