"""C22 wire format of transactions, headers and blocks"""
from props import _tx
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize']
BOUNDS = 'outpoints, inputs, outputs, transactions of 0..3 inputs and outputs (and of 253 of either, two symbolic), headers and blocks of 0..3 transactions (thorough 4) with every field over its full range; scripts of 0..3 bytes and of 252, 253, 254 bytes (thorough: also 65535, 65536) ; every strict prefix; surplus of 1..3 arbitrary bytes'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

I32 = (-2**31, 2**31 - 1)
U32 = (0, 2**32 - 1)
I64 = (-2**63, 2**63 - 1)
le = _tx.le

def outpoint(env, p): return env.mod('bitcoin.core').COutPoint(env.bytes(p + 'h', 32), env.int(p + 'n', *U32))
def txin(env, p, n): return env.mod('bitcoin.core').CTxIn(outpoint(env, p), _tx.script(env, env.bytes(p + 's', n)), env.int(p + 'q', *U32))
def txout(env, p, n): return env.mod('bitcoin.core').CTxOut(env.int(p + 'v', *I64), _tx.script(env, env.bytes(p + 's', n)))
def tx(env, p, sin, sout): return env.mod('bitcoin.core').CTransaction([txin(env, '%si%d.' % (p, j), n) for j, n in enumerate(sin)], [txout(env, '%so%d.' % (p, j), n) for j, n in enumerate(sout)], env.int(p + 'lt', *U32), env.int(p + 'ver', *I32))
def header(env, p): return env.mod('bitcoin.core').CBlockHeader(*hfields(env, p))
def hfields(env, p): return [env.int(p + 'ver', *I32), env.bytes(p + 'prev', 32), env.bytes(p + 'root', 32), env.int(p + 'time', *U32), env.int(p + 'bits', *U32), env.int(p + 'nonce', *U32)]

def ref_outpoint(o): return bytes(o.hash) + le(o.n, 4)
def ref_txin(i): return ref_outpoint(i.prevout) + _tx.vint(len(i.scriptSig)) + bytes(i.scriptSig) + le(i.nSequence, 4)
def ref_txout(o): return le(o.nValue, 8) + _tx.vint(len(o.scriptPubKey)) + bytes(o.scriptPubKey)
def ref_header(h): return le(h.nVersion, 4) + bytes(h.hashPrevBlock) + bytes(h.hashMerkleRoot) + le(h.nTime, 4) + le(h.nBits, 4) + le(h.nNonce, 4)
def ref_block(b):
    out = ref_header(b) + _tx.vint(len(b.vtx))
    for t in b.vtx: out += _tx.ref_ser(t)
    return out

def fields(env, kind, a, b):
    E = env.eq
    if kind == 'outpoint': return env.land(E(a.hash, b.hash), E(a.n, b.n))
    if kind == 'txin': return env.land(fields(env, 'outpoint', a.prevout, b.prevout), E(bytes(a.scriptSig), bytes(b.scriptSig)), E(a.nSequence, b.nSequence))
    if kind == 'txout': return env.land(E(a.nValue, b.nValue), E(bytes(a.scriptPubKey), bytes(b.scriptPubKey)))
    if kind == 'tx': return _tx.same(env, a, b)
    if kind == 'header': return env.land(*[E(getattr(a, n), getattr(b, n)) for n in ('nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce')])
    return env.land(fields(env, 'header', a, b), len(a.vtx) == len(b.vtx) and env.land(True, *[_tx.same(env, x, y) for x, y in zip(a.vtx, b.vtx)]))

def make(env, kind, a, p=''):
    if kind == 'outpoint': return outpoint(env, p)
    if kind == 'txin': return txin(env, p, a[0])
    if kind == 'txout': return txout(env, p, a[0])
    if kind == 'tx': return tx(env, p, a[0], a[1])
    if kind == 'header': return header(env, p)
    return env.mod('bitcoin.core').CBlock(*(hfields(env, p) + [[tx(env, '%st%d.' % (p, j), s, o) for j, (s, o) in enumerate(a)]]))

REF = dict(outpoint=ref_outpoint, txin=ref_txin, txout=ref_txout, tx=_tx.ref_ser, header=ref_header, block=ref_block)
CLS = dict(outpoint='COutPoint', txin='CTxIn', txout='CTxOut', tx='CTransaction', header='CBlockHeader', block='CBlock')

def roundtrip(env, kind, shape, extra=True):
    C = env.mod('bitcoin.core'); S = env.mod('bitcoin.core.serialize')
    cls = getattr(C, CLS[kind])
    a = make(env, kind, shape)
    b = a.serialize()
    env.check(env.eq(b, REF[kind](a)), 'the wire format')
    y = cls.deserialize(b)
    env.check(y.__class__ is cls and fields(env, kind, a, y), 'all fields come back')
    if kind in ('txin', 'tx', 'block', 'txout'):
        for s in ([y.scriptSig] if kind == 'txin' else [y.scriptPubKey] if kind == 'txout' else [i.scriptSig for i in y.vin] + [o.scriptPubKey for o in y.vout] if kind == 'tx' else []):
            env.check(isinstance(s, env.mod('bitcoin.core.script').CScript), 'scripts are scripts')
    env.check(y == a and not (y != a), 'equal objects')
    if kind not in ('block',):
        env.check(env.eq(y.GetHash(), _tx.sha2(b)), 'hash is that of the serialization')
    else:
        env.check(env.eq(y.GetHash(), _tx.sha2(ref_header(a))) and env.eq(y.get_header().GetHash(), y.GetHash()), 'block hash is that of the header')
        env.check(fields(env, 'header', y.get_header(), a) and y.get_header().__class__ is C.CBlockHeader, 'header')
    env.check(env.eq(y.serialize(), b), 'same bytes again')
    for n in (1, 3) if extra else ():
        junk = env.bytes('junk%d' % n, n)
        r = env.call(cls.deserialize, b + junk)
        env.check(not r.ok and r.raised(S.DeserializationExtraDataError), 'surplus is reported')
        if not r.ok and r.raised(S.DeserializationExtraDataError):
            env.check(env.land(fields(env, kind, r.exc.obj, a), env.eq(r.exc.padding, junk)), 'with the object and the surplus')
        r = env.call(cls.deserialize, b + junk, True)
        env.check(r.ok and fields(env, kind, r.value, a), 'or allowed')
    env.reach('done')

def truncation(env, kind, shape, lo=0, hi=None):
    C = env.mod('bitcoin.core'); S = env.mod('bitcoin.core.serialize')
    cls = getattr(C, CLS[kind])
    b = make(env, kind, shape).serialize()
    for n in range(lo, len(b) if hi is None else min(hi, len(b))):
        r = env.call(cls.deserialize, b[:n])
        env.check(not r.ok and r.raised(S.SerializationError), 'prefix of %d bytes is refused' % n)
        r = env.call(cls.deserialize, b[:n], True)
        env.check(not r.ok and r.raised(S.SerializationError), 'prefix of %d bytes is refused with padding allowed' % n)
    env.reach('done')

def arbitrary(env, kind, n):
    """anything accepted re-serializes to what it was, up to non-minimal lengths"""
    C = env.mod('bitcoin.core'); S = env.mod('bitcoin.core.serialize')
    cls = getattr(C, CLS[kind])
    b = env.bytes('b', n)
    r = env.call(cls.deserialize, b)
    env.check(r.ok or r.raised(S.SerializationError), 'a serialization error')
    if r.ok:
        y = r.value
        env.check(env.eq(y.serialize(), REF[kind](y)), 'wire format')
        env.check(cls.deserialize(y.serialize()) == y, 'stable')
        env.reach('accepted')
    else: env.reach('refused')

def distinct(env, kind, sa, sb):
    a = make(env, kind, sa, 'a.'); b = make(env, kind, sb, 'b.')
    if sa == sb: env.check(env.iff(a == b, fields(env, kind, a, b)), 'equal exactly for equal fields')
    else: env.check(a != b, 'different shapes differ')
    env.check(env.iff(a == b, env.lnot(a != b)), '!= is the negation')
    if kind != 'block': env.check(env.iff(env.eq(a.GetHash(), b.GetHash()), a == b), 'hash')
    env.reach('done')

def many(env, what, n):
    C = env.mod('bitcoin.core')
    ins = [C.CTxIn(C.COutPoint(bytes([k & 255] * 32), k), _tx.script(env, bytes(k % 3)), k) for k in range(n if what == 'in' else 1)]
    outs = [C.CTxOut(k * 1000, _tx.script(env, bytes(k % 3))) for k in range(n if what == 'out' else 1)]
    ins[-1] = txin(env, 'i', 2); outs[-1] = txout(env, 'o', 2); outs[0] = txout(env, 'p', 1)
    t = C.CTransaction(ins, outs, env.int('lt', *U32), env.int('ver', *I32))
    b = t.serialize()
    env.check(env.eq(b, _tx.ref_ser(t)), 'the wire format')
    y = C.CTransaction.deserialize(b)
    env.check(_tx.same(env, y, t) and y == t and env.eq(y.GetHash(), _tx.sha2(b)), 'round trip')
    if what == 'block':
        k = C.CBlock(*(hfields(env, 'h') + [[C.CTransaction(nLockTime=j) for j in range(n - 1)] + [t]]))
        b = k.serialize()
        env.check(env.eq(b, ref_block(k)), 'the wire format of the block')
        r = C.CBlock.deserialize(b)
        env.check(fields(env, 'block', r, k), 'round trip of the block')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    def add(k, s, name, **kw):
        cs.append(dict(name='%s_%s' % (k, name), fn='roundtrip', args=dict(kind=k, shape=s, **kw), reach=['done']))
    add('outpoint', [], ''); add('header', [], '')
    big = [252, 253, 254] + ([65535, 65536] if T else [])
    for n in [0, 1, 2, 3, 75, 76] + big:
        add('txin', [n], '%d' % n, extra=n < 300); add('txout', [n], '%d' % n, extra=n < 300)
    txs = [([], []), ([0], []), ([], [0]), ([1], [2]), ([2], [0, 1]), ([0, 3], [1]), ([1, 2], [2, 1]), ([0, 1, 2], [2, 1, 0]), ([253], [252])]
    if T: txs += [([1] * 4, [1] * 4), ([0] * 253, []), ([], [0] * 253), ([0] * 5, [3] * 5)]
    for i, s in enumerate(txs): add('tx', s, '%d' % i)
    blocks = [[], [([1], [1])], [([2], [1]), ([1], [0, 1])], [([1], [1]), ([0], [2]), ([1, 1], [0])]]
    if T: blocks += [[([1], [1])] * 4, [([0], [0])] * 5]
    for i, s in enumerate(blocks): add('block', s, '%d' % i)
    for k, s in [('outpoint', []), ('txin', [0]), ('txin', [3]), ('txin', [253]), ('txout', [0]), ('txout', [3]), ('txout', [253]), ('tx', ([], [])), ('tx', ([1], [2])), ('tx', ([0, 1], [1, 0])), ('header', []),
                 ('block', []), ('block', [([1], [1])]), ('block', [([0], [1]), ([1], [0])])]:
        cs.append(dict(name='truncated_%s_%s' % (k, str(s).replace(' ', '')), fn='truncation', args=dict(kind=k, shape=s), reach=['done'], weight=3))
    for k, n in [('outpoint', 36), ('outpoint', 37), ('outpoint', 35), ('txin', 41), ('txin', 42), ('txin', 43), ('txout', 9), ('txout', 10), ('txout', 11), ('txout', 12), ('tx', 9), ('tx', 10), ('tx', 11), ('tx', 19), ('tx', 20), ('header', 79), ('header', 80), ('header', 81), ('block', 80), ('block', 81), ('block', 82), ('block', 91)] + ([('tx', 51), ('tx', 60), ('block', 92), ('block', 101)] if T else []):
        cs.append(dict(name='arbitrary_%s_%d' % (k, n), fn='arbitrary', args=dict(kind=k, n=n), weight=2))
    for k, l in [('outpoint', [[]]), ('txin', [[0], [1], [2]]), ('txout', [[0], [1], [2]]), ('tx', [([], []), ([1], [1]), ([1], [2]), ([1, 1], [1])]), ('header', [[]])]:
        for i, a in enumerate(l):
            for b in l[i:]: cs.append(dict(name='distinct_%s_%s_%s' % (k, str(a).replace(' ', ''), str(b).replace(' ', '')), fn='distinct', args=dict(kind=k, sa=a, sb=b), reach=['done']))
    for w, n in (('in', 253), ('out', 252), ('out', 253), ('block', 253)): cs.append(dict(name='many_%s_%d' % (w, n), fn='many', args=dict(what=w, n=n), reach=['done'], weight=9))
    return cs
