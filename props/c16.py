"""C16 Bitcoin single-use seal witnesses"""
from props import _tx
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'bitcoin.core', 'bitcoin.core.script', 'proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal']
BOUNDS = 'all seals, 32-byte digests and 32-bit indices; transactions of 0..2 inputs and 0..2 outputs with all fields symbolic and output scripts of 0, 22..26, 33..35 bytes; the two proofs over the same or over different transactions; full, pruned and received witnesses'
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 are ideal injective functions']

def mods(env):
    return env.mod('proofchains.core.uniquebits.singleuseseal'), env.mod('proofchains.core.bitcoin'), env.mod('bitcoin.core'), env.mod('proofmarshal.proof')

def seal(env, p='seal.'):
    U, B, C, P = mods(env)
    return U.BitcoinSingleUseSeal(outpoint=C.COutPoint(env.bytes(p + 'h', 32), env.int(p + 'n', 0, 0xffffffff)), nonce=env.bytes(p + 'nonce', 16))

def carries(env, s, d):
    """the three output forms closing a seal over d"""
    s = bytes(s)
    h = _tx.hash160(d)
    return env.lor(env.eq(s, b'\x6a\x20' + d), env.eq(s, b'\xa9\x14' + h + b'\x87'), env.eq(s, b'\x76\xa9\x14' + h + b'\x88\xac'))

def pick(xs, i):
    """(is there an x at i, the x) by forking over the few elements"""
    for k, x in enumerate(xs):
        if i == k: return x
    return None

def verifies(env, w, d):
    r = env.call(w.verify); q = env.call(w.verify_hash, d)
    for x in (r, q): env.check(x.ok or x.raised((AssertionError, IndexError)), 'refusal by assertion or index error')
    return r.ok, q.ok

def witness(env, shape_in, shape_out, slens, two):
    U, B, C, P = mods(env)
    s = seal(env)
    a = _tx.tx(env, 'a.', shape_in, shape_out, slens)
    b = _tx.tx(env, 'b.', shape_in, shape_out, slens) if two else a
    i = env.int('i', 0, 0xffffffff); j = env.int('j', 0, 0xffffffff)
    d = env.bytes('digest', 32)
    w = U.BitcoinSealWitness(seal=s, txinproof=B.TxInProof(i=i, txproof=B.TxProof(tx=a)), txoutproof=B.TxOutProof(i=j, txproof=B.TxProof(tx=b)))
    ok1, ok2 = verifies(env, w, d)
    x = pick(a.vin, i); y = pick(b.vout, j)
    e1 = x is not None and env.land(env.eq(x.prevout.hash, s.outpoint.hash), env.eq(x.prevout.n, s.outpoint.n), _tx.same(env, a, b) if two else True)
    e2 = y is not None and carries(env, y.scriptPubKey, d)
    env.check(env.iff(ok1, e1), 'verify() accepts exactly the spend of the seal outpoint in the output\'s transaction')
    env.check(env.iff(ok2, e2), 'verify_hash() accepts exactly the outputs carrying the digest')
    env.reach('%s.%s' % (ok1, ok2))
    if two: return
    # the same verdict on copies
    c = U.BitcoinSealWitness
    p = w.prune()
    for f in (c.deserialize(w.serialize()), p):
        k1, k2 = verifies(env, f, d)
        env.check(k1 == ok1 and k2 == ok2, 'same verdict on a copy')
    k1, k2 = verifies(env, c.deserialize(p.serialize()), d)
    env.check(k1 == ok1 and k2 == ok2, 'same verdict after forwarding what was used')
    env.check(env.eq(p.hash, w.hash), 'hash')

def digests(env, form):
    """a witness closing over d does not verify for another digest"""
    U, B, C, P = mods(env)
    d = env.bytes('d', 32); e = env.bytes('e', 32)
    sc = [b'\x6a\x20' + d, b'\xa9\x14' + _tx.hash160(d) + b'\x87', b'\x76\xa9\x14' + _tx.hash160(d) + b'\x88\xac'][form]
    t = C.CTransaction([C.CTxIn(C.COutPoint(env.bytes('h', 32), 0))], [C.CTxOut(0, _tx.script(env, sc))])
    s = U.BitcoinSingleUseSeal(outpoint=C.COutPoint(env.bytes('sh', 32), env.int('sn', 0, 0xffffffff)), nonce=bytes(16))
    p = B.TxProof(tx=t)
    w = U.BitcoinSealWitness(seal=s, txinproof=B.TxInProof(i=0, txproof=p), txoutproof=B.TxOutProof(i=0, txproof=p))
    env.check(env.call(w.verify_hash, d).ok, 'closes over its digest')
    env.check(env.iff(env.call(w.verify_hash, e).ok, env.eq(d, e)), 'and over no other')
    env.check(env.iff(env.call(w.verify).ok, env.land(env.eq(t.vin[0].prevout.hash, s.outpoint.hash), s.outpoint.n == 0)), 'and for no other seal')
    for n in (0, 20, 31, 33):
        env.check(not env.call(w.verify_hash, env.bytes('o%d' % n, n)).ok, 'only 32-byte digests')
    env.reach('done')

def fake(env):
    U, B, C, P = mods(env)
    d = env.bytes('d', 32); e = env.bytes('e', 32)
    w = U.FakeSealWitness.from_hash(d)
    env.check(env.eq(w.seal.committed_hash, d), 'commits to the digest')
    env.check(env.iff(env.call(w.verify_hash, e).ok, env.eq(d, e)), 'verifies for that digest only')
    env.check(env.iff(env.eq(w.hash, U.FakeSealWitness.from_hash(e).hash), env.eq(d, e)), 'hash')
    env.check(env.iff(env.call(U.FakeSealWitness.deserialize(w.serialize()).verify_hash, e).ok, env.eq(d, e)), 'received')
    for n in (0, 31, 33): env.check(not env.call(U.FakeSealWitness.from_hash, env.bytes('b%d' % n, n)).ok, 'bad size')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in (0, 22, 23, 24, 25, 26, 33, 34, 35) + ((1, 2, 36, 50) if T else ()):
        r = ['True.False', 'False.False'] + (['True.True', 'False.True'] if n in (23, 25, 34) else [])
        cs.append(dict(name='witness_script_%d' % n, fn='witness', args=dict(shape_in=1, shape_out=1, slens=n, two=False), reach=r))
        cs.append(dict(name='two_transactions_script_%d' % n, fn='witness', args=dict(shape_in=1, shape_out=1, slens=n, two=True), reach=r))
    for a, b in [(0, 0), (0, 1), (1, 0), (2, 1), (1, 2), (2, 2)] + ([(3, 3)] if T else []):
        for two in (False, True):
            cs.append(dict(name='witness_shape_%d_%d_%d' % (a, b, two), fn='witness', args=dict(shape_in=a, shape_out=b, slens=[34, 25, 23][:b], two=two), reach=['False.False'] + (['True.True'] if a and b else [])))
    cs += [dict(name='digests_%d' % f, fn='digests', args=dict(form=f), reach=['done']) for f in (0, 1, 2)]
    cs.append(dict(name='fake', fn='fake', reach=['done']))
    return cs
