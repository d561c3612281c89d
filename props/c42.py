"""C42 the single-use-seal tool"""
from props import _tx, _tool
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'bitcoin.core', 'bitcoin.core.script', 'bitcoin.rpc', 'proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal', 'proofchains.uniquebits.singleuseseal']
BOUNDS = 'the program run from its argument parser on, on files of its own: all outpoints, nonces and 32-byte digests; closing transactions made by the tool for one or two seals with each method, and arbitrary transactions of up to 2 inputs and outputs; textual arguments with one arbitrary character anywhere, and every digest text of 62, 64 and 66 hex digits; output numbers of up to 3 arbitrary characters and all of up to 10 digits'
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 are ideal injective functions', 'the Bitcoin node and the file system are stand-ins']
D = '0123456789abcdef'
def hx(b): return ''.join([D[c >> 4] + D[c & 15] for c in b])

def nonces(env):
    import os, secrets
    log = []
    def rnd(n):
        r = env.bytes('nonce%d' % len(log), n); log.append(r); return r
    env.patch(os, 'urandom', rnd)
    return log

def outpoint(env, p, n=None):
    """an outpoint and its text"""
    h = env.bytes(p + 'h', 32)
    if n is None: n = [0, 1, 7, 255, 65536, 0xffffffff][env.choice(p + 'n', 6)]
    return h, n, hx(h[::-1]) + ':%d' % n

def mkseal(env, fs, name, text, log):
    e, out = _tool.run(env, ['mkseal', 'OUT', name], fs, {'OUT': text})
    return e

def read_seal(env, b):
    return env.mod('proofchains.core.uniquebits.singleuseseal').BitcoinSingleUseSeal.deserialize(b)

def seal(env):
    log = nonces(env); fs = {}
    h, n, t = outpoint(env, 'o.')
    e = mkseal(env, fs, 'S', t, log)
    env.check(e is None, 'makes the seal')
    s = read_seal(env, fs['S'])
    env.check(env.land(env.eq(s.outpoint.hash, h), env.eq(s.outpoint.n, n)), 'over the outpoint')
    env.check(len(log) == 1 and len(s.nonce) == 16 and env.eq(s.nonce, log[0]), 'with a fresh nonce')
    before = fs['S']
    env.check(mkseal(env, fs, 'S', t, log) is not None and env.eq(fs['S'], before), 'an existing file is kept')
    e, out = _tool.run(env, ['sealinfo', 'S'], fs)
    env.check(e is None and len(out) == 2, 'information')
    env.check(out[0].endswith(hx(s.hash)) and out[1].endswith('\t' + t), 'hash and outpoint as written')
    env.reach('done')

def story(env, nseals, meth, how):
    """make seals, a closing transaction and witnesses, and verify them"""
    C = env.mod('bitcoin.core')
    log = nonces(env); fs = {}
    pts = [outpoint(env, 'o%d.' % k, 5 + k) for k in range(nseals)]
    for k, (h, n, t) in enumerate(pts): env.check(mkseal(env, fs, 'S%d' % k, t, log) is None, 'seal')
    d = env.bytes('digest', 32); other = env.bytes('other', 32)
    names = ['S%d' % k for k in range(nseals)]
    e, out = _tool.run(env, ['mkclosetx', 'D'] + names + ([meth] if meth else []), fs, {'D': hx(d)})
    env.check(e is None and len(out) == 1, 'a closing transaction')
    raw = env.mod('bitcoin.core').x(out[0])
    tx = C.CTransaction.deserialize(raw)
    h = _tx.hash160(d)
    want = {'--p2sh': b'\xa9\x14' + h + b'\x87', '--p2pkh': b'\x76\xa9\x14' + h + b'\x88\xac'}.get(meth, b'\x6a\x20' + d)
    env.check(len(tx.vin) == nseals and len(tx.vout) == 1 and env.eq(bytes(tx.vout[0].scriptPubKey), want), 'closes over the digest')
    for k in range(nseals): env.check(env.land(env.eq(tx.vin[k].prevout.hash, pts[k][0]), env.eq(tx.vin[k].prevout.n, pts[k][1])), 'spends the outpoint')
    asked = []
    def node(txid): asked.append(txid); return tx
    if how == 'tx': e, _ = _tool.run(env, ['mkwitness'] + names + ['--tx', 'RAW'], fs, {'RAW': out[0]})
    else:
        e, _ = _tool.run(env, ['mkwitness'] + names + ['--txid', 'ID'], fs, {'ID': hx(_tx.sha2(raw)[::-1])}, node)
        env.check(len(asked) == 1 and env.eq(asked[0], tx.GetHash()), 'the transaction asked for')
    env.check(e is None, 'witnesses')
    seals = [read_seal(env, fs[s]) for s in names]
    for k in range(nseals):
        w = names[k] + '.witness'
        env.check(verify(env, fs, [w]), 'verifies')
        env.check(verify(env, fs, [w, '-d', 'D'], {'D': hx(d)}), 'for its digest')
        env.check(verify(env, fs, [w, '--seal-file', names[k], '--seal-id', 'I', '-d', 'D', '-l'], {'I': hx(seals[k].hash), 'D': hx(d)}), 'for its seal')
        r = verify(env, fs, [w, '-d', 'D'], {'D': hx(other)})
        env.check(r == env.concrete(env.eq(d, other)), 'for no other digest')
        i = env.bytes('id%d' % k, 32)
        r = verify(env, fs, [w, '--seal-id', 'I'], {'I': hx(i)})
        env.check(r == env.concrete(env.eq(i, seals[k].hash)), 'for no other seal hash')
        for j in range(nseals):
            r = verify(env, fs, [w, '--seal-file', names[j]])
            env.check(r == env.concrete(env.eq(fs[names[j]], fs[names[k]])), 'for no other seal file')
        e, info = _tool.run(env, ['witnessinfo', w], fs)
        env.check(e is None and info[1].endswith(hx(tx.GetHash()[::-1])) and info[2].endswith(hx(seals[k].hash)) and info[3].endswith('\t' + pts[k][2]), 'information')
    env.reach('done')

def verify(env, fs, args, values=None):
    r = env.call(lambda: _tool.run(env, ['verifywitness'] + args, fs, values))
    env.check(r.ok or r.raised((AssertionError, IndexError)), 'refusals')
    return r.ok and r.value[0] is None

def foreign(env, nin, nout, slen):
    """witness for an arbitrary transaction"""
    C = env.mod('bitcoin.core')
    log = nonces(env); fs = {}
    h, n, t = outpoint(env, 'o.', 3)
    mkseal(env, fs, 'S', t, log)
    tx = _tx.tx(env, 't.', nin, nout, slen)
    raw = tx.serialize()
    e, _ = _tool.run(env, ['mkwitness', 'S', '--tx', 'RAW'], fs, {'RAW': hx(raw)})
    spends = env.lor(False, *[env.land(env.eq(i.prevout.hash, h), env.eq(i.prevout.n, n)) for i in tx.vin])
    env.check(env.iff(e is None, spends), 'a witness exactly when the transaction spends the seal')
    env.check(('S.witness' in fs) == (e is None), 'a file exactly then')
    if e is None:
        d = env.bytes('digest', 32); g = _tx.hash160(d)
        s = bytes(tx.vout[0].scriptPubKey) if nout else None
        good = nout > 0 and env.lor(env.eq(s, b'\x6a\x20' + d), env.eq(s, b'\xa9\x14' + g + b'\x87'), env.eq(s, b'\x76\xa9\x14' + g + b'\x88\xac'))
        env.check(env.iff(verify(env, fs, ['S.witness', '-d', 'D'], {'D': hx(d)}), good), 'verifies exactly for the digest of the output')
    env.reach('witness' if e is None else 'none')

def forged(env):
    """a witness file for another seal or transaction than claimed"""
    U = env.mod('proofchains.core.uniquebits.singleuseseal'); B = env.mod('proofchains.core.bitcoin'); C = env.mod('bitcoin.core')
    s = U.BitcoinSingleUseSeal(outpoint=C.COutPoint(env.bytes('h', 32), env.int('n', 0, 0xffffffff)), nonce=env.bytes('nonce', 16))
    a = _tx.tx(env, 'a.', 1, 1, 34); b = _tx.tx(env, 'b.', 1, 1, 34)
    w = U.BitcoinSealWitness(seal=s, txinproof=B.TxInProof(i=env.int('i', 0, 3), txproof=B.TxProof(tx=a)), txoutproof=B.TxOutProof(i=env.int('j', 0, 3), txproof=B.TxProof(tx=b)))
    fs = {'W': w.serialize(), 'S': U.BitcoinSingleUseSeal(outpoint=C.COutPoint(env.bytes('h2', 32), env.int('n2', 0, 0xffffffff)), nonce=env.bytes('nonce2', 16)).serialize()}
    d = env.bytes('d', 32)
    r = verify(env, fs, ['W', '-d', 'D', '--seal-file', 'S'], {'D': hx(d)})
    good = env.land(w.txinproof.i == 0, w.txoutproof.i == 0, env.eq(fs['S'], s.serialize()), env.eq(a.vin[0].prevout.hash, s.outpoint.hash), env.eq(a.vin[0].prevout.n, s.outpoint.n),
                    _tx.same(env, a, b), env.eq(bytes(b.vout[0].scriptPubKey), b'\x6a\x20' + d))
    env.check(env.iff(r, good), 'verifies exactly what closes the given seal over the given digest')
    env.reach('ok' if r else 'refused')

# --- textual arguments
def parse(env, kind, text):
    """the digest or outpoint the tool takes a text for; None when refused"""
    U = env.mod('proofchains.core.uniquebits.singleuseseal')
    got = []
    if kind == 'O':
        fs = {}
        nonces(env)
        e, _ = _tool.run(env, ['mkseal', 'X', 'S'], fs, {'X': text})
        if e is not None: env.check('S' not in fs or fs['S'] == b'', 'nothing made'); return None
        return read_seal(env, fs['S']).outpoint
    # the digest of the closing transaction's output
    C = env.mod('bitcoin.core')
    s = U.BitcoinSingleUseSeal(outpoint=C.COutPoint(b'\x01' * 32, 1), nonce=bytes(16))
    e, out = _tool.run(env, ['mkclosetx', 'X', 'S'], {'S': s.serialize()}, {'X': text})
    if e is not None: env.check(out == [], 'nothing printed'); return None
    return bytes(C.CTransaction.deserialize(C.x(out[0])).vout[0].scriptPubKey)[2:]

def digests(env, n):
    b = env.bytes('b', n)
    got = parse(env, 'D', hx(b))
    env.check((got is not None) == (n == 32), 'only 32 bytes')
    if got is not None: env.check(env.eq(got, b), 'the value written')
    env.reach('done')

def digest_char(env, k, lo, hi):
    """one arbitrary character in a digest"""
    c = env.text('c', 1, lo, hi)
    t = '5e' * 32
    t = t[:k] + c + t[k + 1:]
    v = None
    for j, q in enumerate('0123456789abcdefABCDEF'):
        if c == q: v = j if j < 16 else j - 6
    got = parse(env, 'D', t)
    env.check((got is not None) == (v is not None), 'refused exactly when not hex')
    if v is not None:
        w = [0x5e] * 32; w[k // 2] = (w[k // 2] & 0xf) | (v << 4) if k % 2 == 0 else (w[k // 2] & 0xf0) | v
        env.check(env.eq(got, bytes(w)), 'value')
    env.reach('done')

def outpoint_n(env, k):
    """an output number of k digits"""
    t = ''.join(['0123456789'[env.int('d%d' % j, 0, 9)] for j in range(k)])
    n = 0
    for j in range(k): n = n * 10 + (ord(t[j]) - 48)
    got = parse(env, 'O', '5e' * 32 + ':' + t)
    env.check(env.iff(got is not None, n <= 0xffffffff), 'a 32-bit number')
    if got is not None: env.check(env.eq(got.n, n) and env.eq(got.hash, b'\x5e' * 32), 'the value written')
    env.reach('done')

def outpoint_char(env, k):
    """one arbitrary character around the number or in the hash"""
    c = env.text('c', 1)
    t = '5e' * 32 + ':12'
    t = t[:k] + c + t[k + 1:]
    got = parse(env, 'O', t)
    if k < 64:
        v = None
        for j, q in enumerate('0123456789abcdefABCDEF'):
            if c == q: v = j if j < 16 else j - 6
        env.check((got is not None) == (v is not None), 'refused exactly when not hex')
        if v is not None:
            w = [0x5e] * 32; w[k // 2] = (w[k // 2] & 0xf) | (v << 4) if k % 2 == 0 else (w[k // 2] & 0xf0) | v
            env.check(env.eq(got.hash, bytes(w[::-1])) and got.n == 12, 'value')
    elif k == 64: env.check((got is not None) == (c == ':'), 'the separator')
    else:
        d = None
        for j in range(10):
            if c == '0123456789'[j]: d = j
        if d is not None: env.check(got is not None and got.n == (d * 10 + 2 if k == 65 else 10 + d), 'value')
        # a sign or blank that Python takes as part of a number keeps its value
        elif got is not None: env.check(got.n == (2 if k == 65 else 1), 'value')
    env.reach('done')

def outpoint_form(env, which):
    t = ['', ':', '5e' * 32, '5e' * 32 + ':', ':1', '5e' * 32 + ':1:2', '5e' * 31 + ':1', '5e' * 33 + ':1', '5e' * 32 + ':-1', '5e' * 32 + ':4294967296', '5e' * 32 + ':1.0', '5e' * 32 + ':0x1'][which]
    env.check(parse(env, 'O', t) is None, 'refused')
    env.reach('done')

def usage(env, which):
    """bad command lines make nothing"""
    U = env.mod('proofchains.core.uniquebits.singleuseseal'); C = env.mod('bitcoin.core')
    s = U.BitcoinSingleUseSeal(outpoint=C.COutPoint(b'\x01' * 32, 1), nonce=bytes(16)).serialize()
    argv = [[], ['mkseal'], ['mkclosetx', '5e' * 32, 'S', 'S2'], ['mkclosetx', '5e' * 32], ['mkwitness', 'S'], ['verifywitness', 'nofile'], ['verifywitness', 'S', '--seal-id', '5e'], ['mkwitness', 'nofile', '--tx', '00']][which]
    fs = {'S': s, 'S2': s}
    e, out = _tool.run(env, argv, fs)
    env.check(e is not None and out == [] and sorted(fs) == ['S', 'S2'], 'refused')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = [dict(name='seal', fn='seal', args={}, reach=['done'])]
    for n in (1, 2) + ((3,) if T else ()):
        for m in ('', '--op-return', '--p2sh', '--p2pkh'):
            for how in ('tx', 'txid'): cs.append(dict(name='story_%d_%s_%s' % (n, m, how), fn='story', args=dict(nseals=n, meth=m, how=how), reach=['done'], weight=n))
    for i, o, l in ((0, 1, 2), (1, 0, 2), (1, 1, 34), (2, 1, 23), (1, 2, 25), (2, 2, 34)): cs.append(dict(name='foreign_%d_%d_%d' % (i, o, l), fn='foreign', args=dict(nin=i, nout=o, slen=l), reach=['none'] + (['witness'] if i else [])))
    cs.append(dict(name='forged', fn='forged', args={}, reach=['ok', 'refused']))
    for n in (0, 31, 32, 33): cs.append(dict(name='digests_%d' % n, fn='digests', args=dict(n=n), reach=['done']))
    for k in (0, 1, 31, 62, 63): cs.append(dict(name='digest_char_%d' % k, fn='digest_char', args=dict(k=k, lo=33, hi=127), reach=['done']))
    for k in range(1, 12): cs.append(dict(name='outpoint_n_%d' % k, fn='outpoint_n', args=dict(k=k), reach=['done']))
    for k in (0, 1, 63, 64, 65, 66): cs.append(dict(name='outpoint_char_%d' % k, fn='outpoint_char', args=dict(k=k), reach=['done']))
    for k in range(12): cs.append(dict(name='outpoint_form_%d' % k, fn='outpoint_form', args=dict(which=k), reach=['done']))
    for k in range(8): cs.append(dict(name='usage_%d' % k, fn='usage', args=dict(which=k), reach=['done']))
    return cs
