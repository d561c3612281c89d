"""C35 signature hashes"""
from props import _tx, _sig, _script
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize']
BOUNDS = 'transactions of 1..3 inputs and 0..3 outputs (thorough: 4 and 4) with all fields symbolic and scripts of up to 2 bytes, mutable and immutable; every input index up to one beyond the inputs; every 32-bit hash type; scripts of up to 4 (thorough 5) arbitrary bytes and longer ones with code separators between and inside pushes; deletion of patterns of 0..3 bytes of data'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def sighash(env, nin, nout, i, mutable, code):
    S = env.mod('bitcoin.core.script')
    t = _tx.tx(env, 't', nin, nout, [0, 2, 1, 0][:nout], [1, 0, 2, 0][:nin], mutable)
    before = _tx.ref_ser(t); ids = [id(x) for x in t.vin] + [id(x) for x in t.vout]
    ht = env.int('ht', 0, 0xffffffff)
    code = {'empty': b'', 'sep': b'\xab', 'p2pkh': b'\x76\xa9\x14' + env.bytes('h', 20) + b'\x88\xac', 'any': env.bytes('c', 2)}[code]
    sc = S.CScript(code)
    r = env.call(S.RawSignatureHash, sc, t, i, ht)
    env.check(r.ok, 'no error')
    h, err = r.value
    pre = _sig.preimage(t, i, code, ht)
    if pre is None:
        env.check(env.eq(h, b'\x01' + bytes(31)) and err is not None, 'the number one, with an explanation')
        env.check(env.call(S.SignatureHash, sc, t, i, ht).raised(ValueError), 'an error for wallets')
    else:
        env.check(env.eq(h, _tx.sha2(pre)) and err is None, 'the Bitcoin digest')
        q = env.call(S.SignatureHash, sc, t, i, ht)
        env.check(q.ok and env.eq(q.value, h), 'the same for wallets')
    env.check(env.eq(_tx.ref_ser(t), before) and [id(x) for x in t.vin] + [id(x) for x in t.vout] == ids, 'the transaction is not changed')
    env.reach('one' if pre is None else 'digest')

def covers(env, what, ht):
    """two transactions that differ in one place: the digests differ exactly when the hash type covers that place"""
    S = env.mod('bitcoin.core.script')
    t = _tx.tx(env, 't', 2, 2, 1, 1); u = _tx.tx(env, 'u', 2, 2, 1, 1)
    C = env.mod('bitcoin.core')
    m = C.CMutableTransaction.from_tx(t)
    if what == 'other outpoint': m.vin[1].prevout = C.CMutableOutPoint.from_outpoint(u.vin[1].prevout)
    elif what == 'own outpoint': m.vin[0].prevout = C.CMutableOutPoint.from_outpoint(u.vin[0].prevout)
    elif what == 'own sequence': m.vin[0].nSequence = u.vin[0].nSequence
    elif what == 'other sequence': m.vin[1].nSequence = u.vin[1].nSequence
    elif what == 'scripts': m.vin[0].scriptSig = u.vin[0].scriptSig; m.vin[1].scriptSig = u.vin[1].scriptSig
    elif what == 'own output': m.vout[0] = C.CMutableTxOut.from_txout(u.vout[0])
    elif what == 'other output': m.vout[1] = C.CMutableTxOut.from_txout(u.vout[1])
    elif what == 'lock time': m.nLockTime = u.nLockTime
    elif what == 'version': m.nVersion = u.nVersion
    base = ht & 0x1f; any1 = ht & 0x80
    cov = {'other outpoint': not any1, 'own outpoint': True, 'own sequence': True, 'other sequence': not any1 and base not in (2, 3), 'scripts': False,
           'own output': base != 2, 'other output': base not in (2, 3), 'lock time': True, 'version': True}[what]
    c = S.CScript(env.bytes('c', 1))
    a = S.RawSignatureHash(c, t, 0, ht)[0]; b = S.RawSignatureHash(c, m, 0, ht)[0]
    same = env.eq(a, b)
    if cov: env.check(env.iff(same, env.eq(_tx.sha2(_sig.ref_without_scripts(t)), _tx.sha2(_sig.ref_without_scripts(m)))), 'a covered place')
    else: env.check(same, 'a place that is not covered')
    env.reach('same' if same else 'different')

def delete(env, n, m):
    "every script of n bytes, a push of m bytes of data as pattern"
    S = env.mod('bitcoin.core.script')
    b = env.bytes('b', n); d = env.bytes('d', m)
    pat = S.CScript([d])
    r = env.call(S.FindAndDelete, S.CScript(b), pat)
    env.check(r.ok and isinstance(r.value, S.CScript) and env.eq(bytes(r.value), _sig.parse_delete(b, _script.push(d))), 'the operations equal to the pattern are gone')
    env.reach('gone' if len(r.value) < n else 'kept')

def separators(env, n):
    S = env.mod('bitcoin.core.script')
    b = env.bytes('b', n)
    r = env.call(S.FindAndDelete, S.CScript(b), S.CScript([S.OP_CODESEPARATOR]))
    env.check(r.ok and env.eq(bytes(r.value), _sig.parse_delete(b, b'\xab')), 'separators are gone, data stay')
    env.check(env.eq(bytes(S.FindAndDelete(S.CScript(b), S.CScript())), b), 'nothing to delete')
    env.reach('gone' if len(r.value) < n else 'kept')

def long(env, shape):
    """pushes of every form with separators before, inside and after"""
    S = env.mod('bitcoin.core.script')
    b = b''
    for k, c in enumerate(shape):
        if c == 's': b = b + b'\xab'
        elif c == 'o': b = b + bytes([env.int('o%d' % k, 0x4f, 0xff)])
        elif c == '1': b = b + b'\x02' + env.bytes('d%d' % k, 2)
        elif c == '2': b = b + b'\x4c\x02' + env.bytes('d%d' % k, 2)
        elif c == '3': b = b + b'\x4d\x02\x00' + env.bytes('d%d' % k, 2)
        elif c == '4': b = b + b'\x4e\x02\x00\x00\x00' + env.bytes('d%d' % k, 2)
        elif c == 'x': b = b + b'\x05' + env.bytes('d%d' % k, 2)
        elif c == 'g': b = b + b'\x02' + sig
        if c == 'G': sig = env.bytes('sig', 2); b = b + b'\x02' + sig
    r = env.call(S.FindAndDelete, S.CScript(b), S.CScript([S.OP_CODESEPARATOR]))
    env.check(r.ok and env.eq(bytes(r.value), _sig.parse_delete(b, b'\xab')), 'separators are gone, data stay')
    s = env.bytes('pat', 2)
    r = env.call(S.FindAndDelete, S.CScript(b), S.CScript([s]))
    env.check(r.ok and env.eq(bytes(r.value), _sig.parse_delete(b, b'\x02' + s)), 'the signature is gone')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    N = 4 if T else 3
    for nin in range(1, N + 1):
        for nout in range(0, N + 1):
            for i in range(0, nin + 2):
                for m in ((False, True) if T or nin < 3 else (i % 2 == 0,)):
                    for code in ('empty', 'sep', 'p2pkh', 'any') if T or nin * nout < 4 else ('p2pkh',):
                        cs.append(dict(name='hash_%d_%d_%d_%d_%s' % (nin, nout, i, m, code), fn='sighash', args=dict(nin=nin, nout=nout, i=i, mutable=m, code=code), reach=(['digest'] if i < nin else []) + (['one'] if i >= nin or i >= nout else []), weight=nin + nout))
    for w in ('other outpoint', 'own outpoint', 'own sequence', 'other sequence', 'scripts', 'own output', 'other output', 'lock time', 'version'):
        for ht in (0, 1, 2, 3, 4, 0x81, 0x82, 0x83, 0x9f) + ((0x1f, 0x22, 0x43, 0xff, 0x40) if T else ()):
            cs.append(dict(name='covers_%s_%d' % (w.replace(' ', '_'), ht), fn='covers', args=dict(what=w, ht=ht), reach=['same'], weight=3))
    for n in range(0, 6 if T else 5):
        cs.append(dict(name='sep_%d' % n, fn='separators', args=dict(n=n), reach=['kept'] + (['gone'] if n else []), weight=2 * n, opts=dict(case_s=3000, max_paths=10**6)))
        for m in range(0, 4): cs.append(dict(name='delete_%d_%d' % (n, m), fn='delete', args=dict(n=n, m=m), reach=['kept'] + (['gone'] if n > m else []), weight=2 * n, opts=dict(case_s=3000, max_paths=10**6)))
    for s in ['s1s', '1s1', 'ss2s', '3s4', '4ss1s', 'osos', 'sx', 'x', 'Gsg', 'GoGg'[:2] + 'g', 'Ggs', 'G2g', '1G1', 'so1s2s3s4s']: cs.append(dict(name='long_' + s, fn='long', args=dict(shape=s), reach=['done'], weight=3))
    return cs
