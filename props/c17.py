"""C17 closing transaction templates"""
from props import _tx
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'bitcoin.core', 'bitcoin.core.script', 'proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal', 'proofchains.uniquebits.singleuseseal']
BOUNDS = 'all 32-byte digests, 0..3 seals (thorough 5) with arbitrary outpoints and nonces (possibly equal), all three methods and the default, dust 0..21e14'
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 are ideal injective functions']

def template(env, n, meth, dust):
    U = env.mod('proofchains.core.uniquebits.singleuseseal'); B = env.mod('proofchains.core.bitcoin'); C = env.mod('bitcoin.core')
    T = env.mod('proofchains.uniquebits.singleuseseal')
    seals = [U.BitcoinSingleUseSeal(outpoint=C.COutPoint(env.bytes('s%d.h' % k, 32), env.int('s%d.n' % k, 0, 0xffffffff)), nonce=env.bytes('s%d.nonce' % k, 16)) for k in range(n)]
    d = env.bytes('digest', 32); e = env.bytes('other', 32)
    kw = {}
    if meth: kw['meth'] = meth
    if dust: kw['dust'] = env.int('dust', 0, 21 * 10**14)
    t = T.make_close_seal_tx_template(d, *seals, **kw)
    env.check(len(t.vin) == n and len(t.vout) == 1, 'one input per seal, one output')
    for k in range(n):
        env.check(env.land(env.eq(t.vin[k].prevout.hash, seals[k].outpoint.hash), env.eq(t.vin[k].prevout.n, seals[k].outpoint.n)), 'input %d spends seal %d' % (k, k))
        env.check(env.land(env.eq(bytes(t.vin[k].scriptSig), b''), env.eq(t.vin[k].nSequence, 0xffffffff)), 'unsigned final input')
    h = _tx.hash160(d)
    want = {'op_return': b'\x6a\x20' + d, 'p2sh': b'\xa9\x14' + h + b'\x87', 'p2pkh': b'\x76\xa9\x14' + h + b'\x88\xac'}[meth or 'op_return']
    env.check(env.eq(bytes(t.vout[0].scriptPubKey), want), 'the output has the form of the method')
    v = 0 if meth in (None, 'op_return') else kw.get('dust', 600)
    env.check(env.eq(t.vout[0].nValue, v), 'output value')
    x = B.TxProof(tx=t)
    ws = []
    for k in range(n):
        w = U.BitcoinSealWitness(seal=seals[k], txinproof=B.TxInProof(i=k, txproof=x), txoutproof=B.TxOutProof(i=0, txproof=x))
        env.check(env.call(w.verify).ok and env.call(w.verify_hash, d).ok, 'the witness for seal %d verifies' % k)
        env.check(env.iff(env.call(w.verify_hash, e).ok, env.eq(d, e)), 'for its digest only')
        env.reach('verified')
    # a seal not in the list
    s = U.BitcoinSingleUseSeal(outpoint=C.COutPoint(env.bytes('x.h', 32), env.int('x.n', 0, 0xffffffff)), nonce=env.bytes('x.nonce', 16))
    i = env.int('i', 0, n)
    w = U.BitcoinSealWitness(seal=s, txinproof=B.TxInProof(i=i, txproof=x), txoutproof=B.TxOutProof(i=0, txproof=x))
    r = env.call(w.verify)
    env.check(env.iff(r.ok, env.lor(False, *[env.land(i == k, env.eq(s.outpoint.hash, seals[k].outpoint.hash), env.eq(s.outpoint.n, seals[k].outpoint.n)) for k in range(n)])), 'verifies only for a seal in the list')
    env.reach('foreign %s' % r.ok)

def cases(tier):
    cs = []
    for n in range(4 if tier == 'quick' else 6):
        for m in (None, 'op_return', 'p2sh', 'p2pkh'):
            cs.append(dict(name='template_%d_%s' % (n, m), fn='template', args=dict(n=n, meth=m, dust=bool(m)), reach=['foreign False'] + (['verified', 'foreign True'] if n else [])))
    cs.append(dict(name='template_1_p2sh_default_dust', fn='template', args=dict(n=1, meth='p2sh', dust=False)))
    return cs
