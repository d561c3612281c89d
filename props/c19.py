"""C19 unique map entries"""
from props import _tx
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'bitcoin.core', 'bitcoin.core.script', 'proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal', 'proofchains.core.uniquebits.gumap']
BOUNDS = 'map types with fixed-width, variable-length (0..2 bytes) and proof keys and values; leaf keys of 8-bit prefix; inner entries over unused, leaf and inner children (depth 2) with prefixes of 0..8 bits; fake seals with arbitrary 32-byte digests and Bitcoin seals with arbitrary outpoints and one-input one-output transactions with arbitrary 34/25/23-byte output scripts'
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 are ideal injective functions']
OPTS = dict(hash_prefix=16)

class M: pass
def mods(env):
    m = M()
    m.U = env.mod('proofchains.core.uniquebits.singleuseseal'); m.B = env.mod('proofchains.core.bitcoin'); m.C = env.mod('bitcoin.core')
    m.P = env.mod('proofmarshal.proof'); m.S = env.mod('proofmarshal.serialize'); m.Bits = env.mod('proofmarshal.bits').Bits; m.G = env.mod('proofchains.core.uniquebits.gumap')
    class Foo(m.P.Proof):
        HASHTAG = m.S.HashTag('19e5278a-76cc-479c-8713-e7648636979c')
        __slots__ = ['n']
        SERIALIZED_ATTRS = [('n', m.S.FixedBytes(1))]
    m.Foo = Foo
    return m

TAGS = ['73777384-88f0-40cc-a836-443cc6db3589', '83777384-88f0-40cc-a836-443cc6db3589']

def gumap(m, kind, tag=0):
    ks, vs = dict(fixed=(m.S.FixedBytes(1), m.S.FixedBytes(2)), var=(m.S.VarBytes(2), m.S.VarBytes(2)), proof=(m.Foo, m.Foo), mixed=(m.S.FixedBytes(1), m.Foo))[kind]
    class Map(m.G.GuMap):
        __slots__ = []
        HASHTAG = m.S.HashTag(TAGS[tag])
        KEY_SERIALIZER = ks
        VALUE_SERIALIZER = vs
        SEAL_CLASS = m.U.BitcoinSingleUseSeal
        WITNESS_CLASS = m.U.BitcoinSealWitness
        @staticmethod
        def key2prefix(key):
            return m.Bits.from_bytes(key if isinstance(key, bytes) else key.n)
    return m.G.make_GuMap_subclass(Map)

def kv(env, m, kind, p, n=1):
    k = env.bytes(p + '.k', n); v = env.bytes(p + '.v', 2 if kind in ('fixed',) else 1)
    return (m.Foo(n=k) if kind == 'proof' else k), (m.Foo(n=v) if kind in ('proof', 'mixed') else v)

def raw(x): return x if isinstance(x, bytes) else x.n
def same_kv(env, a, b): return env.land(env.eq(raw(a[0]), raw(b[0])), env.eq(raw(a[1]), raw(b[1])))

def btc_seal(env, m, p): return m.U.BitcoinSingleUseSeal(outpoint=m.C.COutPoint(env.bytes(p + '.h', 32), env.int(p + '.n', 0, 0xffffffff)), nonce=env.bytes(p + '.nonce', 16))
def fake_seal(env, m, p): return m.U.FakeSingleUseSeal(committed_hash=env.bytes(p + '.c', 32))

def honest(env, m, form=0):
    """an honest witness maker, recording the digest it was asked to seal"""
    log = []
    def make(seal, digest):
        log.append(digest)
        if seal.__class__ is m.U.FakeSingleUseSeal: return m.U.FakeSealWitness.from_hash(digest)
        sc = [b'\x6a\x20' + digest, b'\xa9\x14' + _tx.hash160(digest) + b'\x87', b'\x76\xa9\x14' + _tx.hash160(digest) + b'\x88\xac'][form]
        x = m.B.TxProof(tx=m.C.CTransaction([m.C.CTxIn(seal.outpoint)], [m.C.CTxOut(0, _tx.script(env, sc))]))
        return m.U.BitcoinSealWitness(seal=seal, txinproof=m.B.TxInProof(i=0, txproof=x), txoutproof=m.B.TxOutProof(i=0, txproof=x))
    return make, log

def ok(env, e):
    r = env.call(e.verify)
    env.check(r.ok or r.raised((AssertionError, IndexError)), 'refusal')
    return r.ok

def leaf(env, kind, form):
    """built honestly, then with other contents"""
    m = mods(env); G = gumap(m, kind)
    a = kv(env, m, kind, 'a'); b = kv(env, m, kind, 'b')
    u = G.UnusedPrefix(prefix=m.Bits(), seal=btc_seal(env, m, 's'))
    make, log = honest(env, m, form)
    env.check(env.call(u.verify).ok, 'unused prefixes verify')
    e = G.LeafPrefix.from_unused_prefix(u, a[0], a[1], make)
    env.check(len(log) == 1, 'one digest sealed')
    env.check(ok(env, e) and env.call(e.witness.verify).ok, 'an honest entry verifies')
    env.check(env.land(env.eq(raw(e.key), raw(a[0])), env.eq(raw(e.value), raw(a[1]))), 'contents')
    env.check(e.seal == u.seal, 'seal')
    env.check(e.prefix == m.Bits.from_bytes(raw(a[0])), 'prefix')
    f = G.LeafPrefix(witness=e.witness, key=b[0], value=b[1])
    env.check(env.iff(ok(env, f), same_kv(env, a, b)), 'verifies for those contents only')
    env.check(f.prefix == m.Bits.from_bytes(raw(b[0])), 'prefix of its own contents')
    y = G.deserialize(e.serialize())
    env.check(y.__class__ is G.LeafPrefix and ok(env, y) and y.seal == u.seal and env.eq(raw(y.key), raw(a[0])), 'received entry')
    p = e.prune(); ok(env, p)
    env.check(ok(env, p) and ok(env, G.deserialize(p.serialize())), 'forwarded entry')
    env.reach('done')

def lengths(env, na, nb):
    """variable-length contents"""
    m = mods(env); G = gumap(m, 'var')
    a = (env.bytes('ak', na[0]), env.bytes('av', na[1])); b = (env.bytes('bk', nb[0]), env.bytes('bv', nb[1]))
    make, log = honest(env, m)
    u = G.UnusedPrefix(prefix=m.Bits(), seal=fake_seal(env, m, 's'))
    e = G.LeafPrefix.from_unused_prefix(u, a[0], a[1], make)
    env.check(ok(env, e), 'honest')
    env.check(env.iff(ok(env, G.LeafPrefix(witness=e.witness, key=b[0], value=b[1])), na == nb and same_kv(env, a, b)), 'those contents only')
    env.reach('done')

def arbitrary_fake(env, kind):
    """an arbitrary fake witness commits to exactly its digest"""
    m = mods(env); G = gumap(m, kind); a = kv(env, m, kind, 'a')
    make, log = honest(env, m)
    G.LeafPrefix.from_unused_prefix(G.UnusedPrefix(prefix=m.Bits(), seal=fake_seal(env, m, 's')), a[0], a[1], make)
    c = env.bytes('c', 32)
    e = G.LeafPrefix(witness=m.U.FakeSealWitness.from_hash(c), key=a[0], value=a[1])
    env.check(env.iff(ok(env, e), env.eq(c, log[0])), 'verifies exactly for a witness of its digest')
    env.check(env.eq(e.seal.committed_hash, c), 'seal')
    l, r = G.UnusedPrefix(prefix=m.Bits([False]), seal=fake_seal(env, m, 'l')), G.UnusedPrefix(prefix=m.Bits([True]), seal=fake_seal(env, m, 'r'))
    good = G.InnerPrefix.from_children(l, r)
    e = G.InnerPrefix(prefix=m.Bits(), witness=m.U.FakeSealWitness.from_hash(c), left=l, right=r)
    env.check(env.iff(ok(env, e), env.eq(c, good.seal.committed_hash)), 'inner: verifies exactly for a witness of its digest')
    env.reach('done')

def arbitrary_btc(env, kind, slen):
    m = mods(env); G = gumap(m, kind); a = kv(env, m, kind, 'a')
    make, log = honest(env, m)
    s = btc_seal(env, m, 's')
    G.LeafPrefix.from_unused_prefix(G.UnusedPrefix(prefix=m.Bits(), seal=s), a[0], a[1], make)
    d = log[0]
    t = _tx.tx(env, 't.', 1, 1, slen)
    x = m.B.TxProof(tx=t)
    w = m.U.BitcoinSealWitness(seal=s, txinproof=m.B.TxInProof(i=0, txproof=x), txoutproof=m.B.TxOutProof(i=env.int('j', 0, 3), txproof=x))
    e = G.LeafPrefix(witness=w, key=a[0], value=a[1])
    h = _tx.hash160(d); sc = bytes(t.vout[0].scriptPubKey)
    env.check(env.iff(ok(env, e), env.land(w.txoutproof.i == 0, env.lor(env.eq(sc, b'\x6a\x20' + d), env.eq(sc, b'\xa9\x14' + h + b'\x87'), env.eq(sc, b'\x76\xa9\x14' + h + b'\x88\xac')))), 'exactly when the transaction output carries its digest')
    env.reach('done')

def child(env, m, G, kind, what, p, bits):
    if what == 'unused': return G.UnusedPrefix(prefix=bits, seal=fake_seal(env, m, p))
    if what == 'unused_btc': return G.UnusedPrefix(prefix=bits, seal=btc_seal(env, m, p))
    make, _ = honest(env, m)
    if what == 'leaf':
        a = kv(env, m, kind, p)
        return G.LeafPrefix.from_unused_prefix(G.UnusedPrefix(prefix=bits, seal=btc_seal(env, m, p)), a[0], a[1], make)
    return G.InnerPrefix.from_children(child(env, m, G, kind, 'unused', p + 'l', m.Bits(list(bits) + [False])), child(env, m, G, kind, 'unused', p + 'r', m.Bits(list(bits) + [True])))

def inner(env, kind, lw, rw, form):
    m = mods(env); G = gumap(m, kind)
    l = child(env, m, G, kind, lw, 'l', m.Bits([False])); r = child(env, m, G, kind, rw, 'r', m.Bits([True]))
    l2 = child(env, m, G, kind, lw, 'L', m.Bits([False])); r2 = child(env, m, G, kind, rw, 'R', m.Bits([True]))
    make, log = honest(env, m, form)
    u = G.UnusedPrefix(prefix=m.Bits(), seal=btc_seal(env, m, 's'))
    e = G.InnerPrefix.from_unused_prefix(u, l, r, make)
    env.check(len(log) == 1 and ok(env, e) and env.call(e.witness.verify).ok, 'an honest split verifies')
    env.check(e.seal == u.seal and e.prefix == u.prefix and e.left is l and e.right is r, 'seal, prefix and children')
    same = lambda x, y: env.eq(x.seal.hash, y.seal.hash)
    env.check(env.iff(same(l, l2), l.seal == l2.seal), 'seals by hash')
    f = G.InnerPrefix(prefix=u.prefix, witness=e.witness, left=l2, right=r2)
    env.check(env.iff(ok(env, f), env.land(same(l, l2), same(r, r2))), 'verifies for those children only')
    f = G.InnerPrefix(prefix=u.prefix, witness=e.witness, left=r, right=l)
    env.check(env.iff(ok(env, f), same(l, r)), 'children in order')
    y = G.deserialize(e.serialize())
    env.check(ok(env, y) and y == e, 'received')
    p = e.prune(); ok(env, p)
    env.check(ok(env, p) and ok(env, G.deserialize(p.serialize())), 'forwarded')
    env.reach('done')

def children(env, kind, lw, rw, nl, nr):
    """from_children: fake seal, common prefix"""
    m = mods(env); G = gumap(m, kind)
    bl = [env.bool('l%d' % i) for i in range(nl)]; br = [env.bool('r%d' % i) for i in range(nr)]
    bl = [bool(b) for b in bl]; br = [bool(b) for b in br]
    l = child(env, m, G, kind, lw, 'l', m.Bits(bl)); r = child(env, m, G, kind, rw, 'r', m.Bits(br))
    e = G.InnerPrefix.from_children(l, r)
    env.check(ok(env, e), 'verifies')
    k = 0
    while k < nl and k < nr and bl[k] == br[k]: k += 1
    env.check(e.prefix == m.Bits(bl[:k]), 'the common prefix')
    env.check(e.witness.__class__ is m.U.FakeSealWitness and e.seal == e.witness.seal, 'fake seal')
    env.reach('common %d' % k)

def kinds(env):
    """digests of different map types and of different entry kinds are different"""
    m = mods(env)
    digs = []
    for tag in (0, 1):
        G = gumap(m, 'var' if 0 else 'fixed', tag)
        make, log = honest(env, m)
        u = G.UnusedPrefix(prefix=m.Bits(), seal=fake_seal(env, m, 's%d' % tag))
        a = kv(env, m, 'fixed', 'k%d' % tag)
        G.LeafPrefix.from_unused_prefix(u, a[0], a[1], make)
        l = G.UnusedPrefix(prefix=m.Bits([False]), seal=fake_seal(env, m, 'l%d' % tag)); r = G.UnusedPrefix(prefix=m.Bits([True]), seal=fake_seal(env, m, 'r%d' % tag))
        G.InnerPrefix.from_unused_prefix(u, l, r, make)
        digs += log
    for i in range(4):
        for j in range(i): env.check(env.lnot(env.eq(digs[i], digs[j])), 'digests %d and %d are separated' % (j, i))
    env.reach('done')

def long_kinds(env):
    """a leaf whose key and value are digests is not confused with an inner entry"""
    m = mods(env)
    class Map(m.G.GuMap):
        __slots__ = []
        HASHTAG = m.S.HashTag(TAGS[0])
        KEY_SERIALIZER = m.S.FixedBytes(32)
        VALUE_SERIALIZER = m.S.FixedBytes(32)
        SEAL_CLASS = m.U.BitcoinSingleUseSeal
        WITNESS_CLASS = m.U.BitcoinSealWitness
        @staticmethod
        def key2prefix(key): return m.Bits.from_bytes(key)
    G = m.G.make_GuMap_subclass(Map)
    l = G.UnusedPrefix(prefix=m.Bits([False]), seal=fake_seal(env, m, 'l')); r = G.UnusedPrefix(prefix=m.Bits([True]), seal=fake_seal(env, m, 'r'))
    e = G.InnerPrefix.from_children(l, r)
    f = G.LeafPrefix(witness=e.witness, key=l.seal.hash, value=r.seal.hash)
    env.check(not ok(env, f), 'the witness of a split does not verify for a leaf')
    make, log = honest(env, m)
    k = env.bytes('k', 32); v = env.bytes('v', 32)
    f = G.LeafPrefix.from_unused_prefix(G.UnusedPrefix(prefix=m.Bits(), seal=fake_seal(env, m, 's')), k, v, make)
    e = G.InnerPrefix(prefix=m.Bits(), witness=f.witness, left=l, right=r)
    env.check(not ok(env, e), 'the witness of a leaf does not verify for a split')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for kind in ('fixed', 'var', 'proof', 'mixed'):
        for form in (0, 1, 2): cs.append(dict(name='leaf_%s_%d' % (kind, form), fn='leaf', args=dict(kind=kind, form=form), reach=['done']))
        cs.append(dict(name='arbitrary_fake_%s' % kind, fn='arbitrary_fake', args=dict(kind=kind), reach=['done']))
        for n in (34, 25, 23): cs.append(dict(name='arbitrary_btc_%s_%d' % (kind, n), fn='arbitrary_btc', args=dict(kind=kind, slen=n), reach=['done']))
    L = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)] + ([(2, 2), (0, 2), (2, 0)] if T else [])
    for i, a in enumerate(L):
        for b in L[i:]: cs.append(dict(name='lengths_%d%d_%d%d' % (a + b), fn='lengths', args=dict(na=a, nb=b), reach=['done']))
    W = ['unused', 'unused_btc', 'leaf', 'inner']
    for l in W:
        for r in W:
            cs.append(dict(name='inner_%s_%s' % (l, r), fn='inner', args=dict(kind='fixed', lw=l, rw=r, form=0), reach=['done'], weight=3))
    for f in (1, 2): cs.append(dict(name='inner_form_%d' % f, fn='inner', args=dict(kind='proof', lw='unused', rw='leaf', form=f), reach=['done']))
    for nl in range(4):
        for nr in range(4): cs.append(dict(name='children_%d_%d' % (nl, nr), fn='children', args=dict(kind='fixed', lw='unused', rw='unused_btc', nl=nl, nr=nr), reach=['common %d' % min(nl, nr)]))
    cs.append(dict(name='children_leaf_leaf', fn='children2', args=dict(), weight=5, reach=['done']))
    cs += [dict(name='kinds', fn='kinds', reach=['done']), dict(name='long_kinds', fn='long_kinds', reach=['done'])]
    return cs

def children2(env):
    """two leaves: the prefix is the common prefix of their keys"""
    m = mods(env); G = gumap(m, 'fixed')
    l = child(env, m, G, 'fixed', 'leaf', 'l', m.Bits()); r = child(env, m, G, 'fixed', 'leaf', 'r', m.Bits())
    e = G.InnerPrefix.from_children(l, r)
    env.check(ok(env, e), 'verifies')
    k = len(e.prefix)
    bl = list(m.Bits.from_bytes(raw(l.key))); br = list(m.Bits.from_bytes(raw(r.key)))
    env.check(env.land(*[env.eq(bl[j], br[j]) for j in range(k)]), 'common')
    if k < 8: env.check(env.lnot(env.eq(bl[k], br[k])), 'longest')
    env.check(env.land(*[env.eq(e.prefix[j], bl[j]) for j in range(k)]), 'the common prefix')
    env.reach('done')
