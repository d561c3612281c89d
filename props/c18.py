"""C18 transaction proofs"""
from props import _tx
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize', 'proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal']
BOUNDS = 'transactions of 0..2 inputs and 0..2 outputs (thorough 3) with scripts of 0..3 bytes, all fields symbolic; all 32-bit indices; transactions of 130 outputs or inputs with indices 0, 63, 64, 127..131; arbitrary bytes of 0..12 and 36 bytes as embedded transactions and outpoints'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def mods(env):
    return env.mod('proofchains.core.uniquebits.singleuseseal'), env.mod('proofchains.core.bitcoin'), env.mod('bitcoin.core'), env.mod('proofmarshal.proof')

def txproof(env, nin, nout, slen, mutable):
    U, B, C, P = mods(env)
    t = _tx.tx(env, 't.', nin, nout, slen, slen, mutable)
    x = B.TxProof(tx=t)
    txid = _tx.sha2(_tx.ref_ser(t))
    c = B.TxProof
    forms = [x, x.prune(), x.prune().prune(), c.deserialize(x.serialize()), c.deserialize(x.prune().serialize()), c.deserialize(x.prune().serialize()).prune(),
             c.deserialize(c.deserialize(x.prune().serialize()).serialize())]
    q = x.prune(); q.tx; forms += [q, c.deserialize(q.serialize())]
    forms += [B.TxProof(tx=t).prune()]
    for i, f in enumerate(forms):
        env.check(env.eq(f.txhash, txid), 'form %d reports the transaction id' % i)
        env.check(env.eq(f.hash, x.hash), 'form %d has the hash' % i)
        env.check(f == x, 'form %d is equal' % i)
    y = forms[3]
    env.check(_tx.same(env, y.tx, t), 'the embedded transaction round-trips')
    env.check(y.tx.__class__ is C.CTransaction or mutable, 'as an immutable transaction')
    r = env.call(getattr, forms[4], 'tx')
    env.check(not r.ok and r.raised(P.PrunedError), 'the pruned transaction is not available')
    env.check(env.eq(y.serialize(), x.serialize()), 'same bytes')
    env.reach('done')

def commit(env, a, b):
    U, B, C, P = mods(env)
    t = _tx.tx(env, 't.', *a); u = _tx.tx(env, 'u.', *b)
    x = B.TxProof(tx=t); y = B.TxProof(tx=u)
    env.check(env.iff(x == y, _tx.same(env, t, u)), 'equal exactly for equal transactions')
    env.check(env.iff(env.eq(x.txhash, y.txhash), _tx.same(env, t, u)), 'transaction id')
    env.reach('done')

def index(env, kind, n):
    U, B, C, P = mods(env)
    t = _tx.tx(env, 't.', n if kind == 'in' else 1, n if kind == 'out' else 1)
    i = env.int('i', 0, 0xffffffff)
    c = B.TxInProof if kind == 'in' else B.TxOutProof
    x = c(i=i, txproof=B.TxProof(tx=t))
    lst = t.vin if kind == 'in' else t.vout
    p = x.prune()
    for f in (x, p, c.deserialize(x.serialize())):
        r = env.call(f.verify)
        env.check(env.iff(r.ok, i < n), 'verifies exactly for indices that exist')
        env.check(r.ok or r.raised(AssertionError), 'refusal')
        r = env.call(lambda: f.txin if kind == 'in' else f.txout)
        env.check(env.iff(r.ok, i < n), 'available exactly for indices that exist')
        if r.ok:
            k = env.concrete(i)
            e = lst[k]
            if kind == 'in': env.check(env.land(env.eq(r.value.prevout.hash, e.prevout.hash), env.eq(r.value.prevout.n, e.prevout.n), env.eq(bytes(r.value.scriptSig), bytes(e.scriptSig)), env.eq(r.value.nSequence, e.nSequence)), 'that input')
            else: env.check(env.land(env.eq(r.value.nValue, e.nValue), env.eq(bytes(r.value.scriptPubKey), bytes(e.scriptPubKey))), 'that output')
            env.reach('found')
    y = c.deserialize(p.serialize())
    env.check(env.iff(env.call(y.verify).ok, i < n), 'after forwarding what was used')
    env.check(env.eq(y.txproof.txhash, _tx.sha2(_tx.ref_ser(t))), 'transaction id')
    env.reach('done')

def outpoint(env):
    U, B, C, P = mods(env)
    S = env.mod('proofmarshal.serialize')
    o = C.COutPoint(env.bytes('h', 32), env.int('n', 0, 0xffffffff))
    b = B.COutPointSerializer.serialize(o)
    q = B.COutPointSerializer.deserialize(b)
    env.check(q.__class__ is C.COutPoint and env.land(env.eq(q.hash, o.hash), env.eq(q.n, o.n)), 'outpoint round trip')
    s = U.BitcoinSingleUseSeal(outpoint=o, nonce=env.bytes('nonce', 16))
    z = U.BitcoinSingleUseSeal.deserialize(s.serialize())
    env.check(env.land(env.eq(z.outpoint.hash, o.hash), env.eq(z.outpoint.n, o.n), env.eq(z.nonce, s.nonce), z == s), 'seal round trip')
    t = _tx.tx(env, 't.')
    x = B.OutPointProof(txproof=B.TxProof(tx=t), n=env.int('i', 0, 0xffffffff))
    z = B.OutPointProof.deserialize(x.serialize())
    env.check(env.land(z == x, env.eq(z.n, x.n), _tx.same(env, z.txproof.tx, t)), 'outpoint proof round trip')
    env.reach('done')

def types(env):
    U, B, C, P = mods(env)
    S = env.mod('proofmarshal.serialize')
    t = _tx.tx(env, 't.'); o = t.vin[0].prevout
    bads = [None, 1, b'abc', 'abc', [], object(), C.CTransaction, t.vin[0], t.vout[0]]
    for ser, good, other in ((B.CTransactionSerializer, t, o), (B.COutPointSerializer, o, t)):
        env.check(env.call(ser.check_instance, good).ok, 'accepted')
        for b in bads + [other]:
            r = env.call(ser.check_instance, b)
            env.check(not r.ok and r.raised(S.SerializerTypeError), 'refused with the serializer type error, not %s' % r.name)
    for b in bads + [o]:
        r = env.call(lambda: B.TxProof(tx=b)); env.check(not r.ok and r.raised(S.SerializerTypeError), 'not a transaction')
    for b in bads + [t]:
        r = env.call(lambda: U.BitcoinSingleUseSeal(outpoint=b, nonce=bytes(16))); env.check(not r.ok and r.raised(S.SerializerTypeError), 'not an outpoint')
        for c in (B.TxInProof, B.TxOutProof):
            r = env.call(lambda: c(i=0, txproof=b)); env.check(not r.ok and r.raised(S.SerializerTypeError), 'not a transaction proof')
    env.reach('done')

def garbage(env, what, n):
    """embedded values in untrusted bytes: a value or a serialization error"""
    U, B, C, P = mods(env)
    S = env.mod('proofmarshal.serialize'); BS = env.mod('bitcoin.core.serialize')
    b = env.bytes('b', n)
    c = dict(tx=B.CTransactionSerializer, outpoint=B.COutPointSerializer)[what]
    r = env.call(c.deserialize, b)
    env.check(r.ok or r.raised((S.DeserializationError, BS.SerializationError)), 'refused with a serialization error, not %s' % r.name)
    env.reach('ok' if r.ok else 'refused')

def far(env, kind):
    U, B, C, P = mods(env)
    n = 130
    t = C.CTransaction([C.CTxIn(C.COutPoint(bytes([k] * 32), k)) for k in range(n if kind == 'in' else 1)], [C.CTxOut(k) for k in range(n if kind == 'out' else 1)], env.int('lt', 0, 0xffffffff))
    i = [0, 63, 64, 127, 128, 129, 130, 131, 16384][env.choice('i', 9)]
    c = B.TxInProof if kind == 'in' else B.TxOutProof
    x = c(i=i, txproof=B.TxProof(tx=t))
    p = x.prune(); env.call(lambda: p.txin if kind == 'in' else p.txout)
    for f in (x, p, c.deserialize(x.serialize()), c.deserialize(p.serialize())):
        env.check(f.i == i and env.eq(f.hash, x.hash), 'index and hash')
        env.check(env.call(f.verify).ok == (i < n), 'verifies exactly for indices that exist')
        r = env.call(lambda: f.txin if kind == 'in' else f.txout)
        env.check(r.ok == (i < n) and (not r.ok or (r.value.prevout.n if kind == 'in' else r.value.nValue) == i), 'that one')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    sh = [(i, o) for i in range(4 if T else 3) for o in range(4 if T else 3)]
    for i, o in sh:
        for sl in ((0, 3) if T else (2,)):
            cs.append(dict(name='txproof_%d_%d_%d' % (i, o, sl), fn='txproof', args=dict(nin=i, nout=o, slen=sl, mutable=False), reach=['done']))
    cs.append(dict(name='txproof_mutable', fn='txproof', args=dict(nin=1, nout=1, slen=1, mutable=True), reach=['done']))
    forms = [(1, 1, 0), (1, 1, 2), (2, 1, 1), (1, 2, 1), (0, 1, 1), (1, 0)]
    cs += [dict(name='commit_%d_%d' % (i, j), fn='commit', args=dict(a=list(forms[i]), b=list(forms[j])), reach=['done']) for i in range(len(forms)) for j in range(i + 1)]
    for k in ('in', 'out'):
        for n in range(0, 4 if T else 3): cs.append(dict(name='index_%s_%d' % (k, n), fn='index', args=dict(kind=k, n=n), reach=['done'] + (['found'] if n else [])))
    cs += [dict(name='outpoint', fn='outpoint', reach=['done']), dict(name='types', fn='types', reach=['done'])]
    for n in list(range(0, 13)) + ([14, 16, 20] if T else []): cs.append(dict(name='garbage_tx_%d' % n, fn='garbage', args=dict(what='tx', n=n), reach=['refused']))
    for n in (0, 1, 2, 36, 37): cs.append(dict(name='garbage_outpoint_%d' % n, fn='garbage', args=dict(what='outpoint', n=n), reach=['refused'] + (['ok'] if n == 37 else [])))
    for k in ('in', 'out'): cs.append(dict(name='far_' + k, fn='far', args=dict(kind=k), reach=['done']))
    return cs
