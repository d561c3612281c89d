"""C23 mutable and immutable forms"""
from props import _tx
from props.c22 import outpoint, txin, txout, tx, fields, ref_outpoint, ref_txin, ref_txout, ref_header, U32, I32, I64
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize']
BOUNDS = 'outpoints, inputs, outputs and transactions of 0..2 inputs and outputs with all fields symbolic and scripts of 0..2 bytes; all sequences of 3 (thorough 4) operations among change of a further copy, conversion to immutable, hash query and twelve kinds of mutation with symbolic new values (the last one among conversion, query and three mutations); blocks of 0..2 transactions given in mutable form'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

MUT = ['nVersion', 'nLockTime', 'nSequence', 'scriptSig', 'prevout.n', 'prevout.hash', 'prevout', 'nValue', 'scriptPubKey', 'vin.append', 'vout.pop', 'vin.replace']

class Snap:
    "an immutable transaction and what it was made of"
    def __init__(self, t): self.t = t; self.ser = _tx.ref_ser(t)

def mutate(env, m, k, n):
    C = env.mod('bitcoin.core'); p = 'm%d.' % n
    what = MUT[k]
    if what == 'nVersion': m.nVersion = env.int(p, *I32)
    elif what == 'nLockTime': m.nLockTime = env.int(p, *U32)
    elif what == 'vin.append': m.vin.append(C.CMutableTxIn(C.CMutableOutPoint(env.bytes(p, 32), env.int(p + 'n', *U32))))
    elif what == 'vout.pop':
        if m.vout: m.vout.pop()
    elif what == 'nValue':
        if m.vout: m.vout[-1].nValue = env.int(p, *I64)
    elif what == 'scriptPubKey':
        if m.vout: m.vout[-1].scriptPubKey = _tx.script(env, env.bytes(p, 2))
    elif what == 'nSequence':
        if m.vin: m.vin[0].nSequence = env.int(p, *U32)
    elif what == 'scriptSig':
        if m.vin: m.vin[0].scriptSig = _tx.script(env, env.bytes(p, 1))
    elif what == 'prevout.n':
        if m.vin: m.vin[0].prevout.n = env.int(p, *U32)
    elif what == 'prevout.hash':
        if m.vin: m.vin[-1].prevout.hash = env.bytes(p, 32)
    elif what == 'prevout':
        if m.vin: m.vin[0].prevout = C.CMutableOutPoint(env.bytes(p, 32), env.int(p + 'n', *U32))
    elif what == 'vin.replace':
        m.vin = [C.CMutableTxIn(C.CMutableOutPoint(env.bytes(p, 32), 7))]

def history(env, nin, nout, first, depth):
    C = env.mod('bitcoin.core')
    t = _tx.tx(env, 't.', nin, nout, 1, 1)
    snaps = [Snap(t)]
    m = C.CMutableTransaction.from_tx(t)
    other = C.CMutableTransaction.from_tx(m); oser = _tx.ref_ser(other)
    env.check(m.__class__ is C.CMutableTransaction and all(i.__class__ is C.CMutableTxIn and i.prevout.__class__ is C.CMutableOutPoint for i in m.vin) and all(o.__class__ is C.CMutableTxOut for o in m.vout), 'fully mutable copy')
    env.check(env.land(_tx.same(env, m, t), _tx.same(env, other, t)), 'equal fields')
    check_all(env, snaps, m)
    for n in range(depth):
        last = [len(MUT), len(MUT) + 2, 4, 7, 9]
        k = first if n == 0 else env.choice('op%d' % n, len(MUT) + 3) if n < depth - 1 else last[env.choice('op%d' % n, len(last))]
        if k < len(MUT): mutate(env, m, k, n)
        elif k == len(MUT):
            t = C.CTransaction.from_tx(m)
            env.check(t.__class__ is C.CTransaction and all(i.__class__ is C.CTxIn and i.prevout.__class__ is C.COutPoint for i in t.vin) and all(o.__class__ is C.CTxOut for o in t.vout) and t.vin.__class__ is tuple and t.vout.__class__ is tuple, 'fully immutable copy')
            env.check(_tx.same(env, m, t), 'equal fields')
            env.check(env.eq(t.serialize(), m.serialize()) and env.eq(t.GetHash(), m.GetHash()) and t == m and m == t, 'equal serialization and hash')
            snaps.append(Snap(t)); env.reach('frozen')
        elif k == len(MUT) + 1:
            # a change through a copy of the copy
            c = C.CMutableTransaction.from_tx(m); mutate(env, c, [4, 7, 9, 0][env.choice('c%d' % n, 4)], 10 + n)
        else:
            env.check(env.eq(m.GetHash(), _tx.sha2(_tx.ref_ser(m))), 'hash query'); env.call(hash, m)
        check_all(env, snaps, m)
    env.check(env.eq(other.serialize(), oser), 'another mutable copy is not affected')
    env.reach('done')

def check_all(env, snaps, m):
    for s in snaps:
        env.check(env.eq(s.t.serialize(), s.ser), 'an immutable transaction never changes')
        env.check(env.eq(s.t.GetHash(), _tx.sha2(s.ser)), 'and neither does its hash')
    env.check(env.eq(m.GetHash(), _tx.sha2(_tx.ref_ser(m))), 'hash of the mutable transaction is current')

PARTS = dict(outpoint=(ref_outpoint, 'COutPoint', 'CMutableOutPoint', 'from_outpoint'), txin=(ref_txin, 'CTxIn', 'CMutableTxIn', 'from_txin'), txout=(ref_txout, 'CTxOut', 'CMutableTxOut', 'from_txout'))

def new(env, kind, p, n=1):
    return dict(outpoint=lambda: outpoint(env, p), txin=lambda: txin(env, p, n), txout=lambda: txout(env, p, n))[kind]()

def part(env, kind, n):
    C = env.mod('bitcoin.core')
    ref, im, mu, frm = PARTS[kind]
    im = getattr(C, im); mu = getattr(C, mu)
    a = new(env, kind, 'a', n); s = ref(a)
    env.check(getattr(im, frm)(a) is a, 'immutable ones are returned as they are')
    b = getattr(mu, frm)(a)
    env.check(b.__class__ is mu and b is not a and fields(env, kind, a, b), 'mutable copy')
    env.check(env.eq(b.serialize(), s) and env.eq(b.GetHash(), _tx.sha2(s)) and a == b, 'equal')
    c = getattr(im, frm)(b)
    env.check(c.__class__ is im and fields(env, kind, a, c), 'immutable copy')
    d = getattr(mu, frm)(b)
    env.check(d.__class__ is mu and d is not b, 'another mutable copy')
    for o in (a, c): o.GetHash(); hash(o)
    # change every attribute of the mutable one
    z = new(env, kind, 'z', n)
    names = dict(outpoint=['hash', 'n'], txin=['scriptSig', 'nSequence', 'prevout'], txout=['nValue', 'scriptPubKey'])[kind]
    if kind == 'txin': b.prevout.n = z.prevout.n; b.prevout.hash = z.prevout.hash
    for f in names: 
        if f != 'prevout': setattr(b, f, getattr(z, f))
    env.check(fields(env, kind, b, z) and env.eq(b.serialize(), ref(z)) and env.eq(b.GetHash(), _tx.sha2(ref(z))), 'changed')
    for o in (a, c, d):
        env.check(env.eq(o.serialize(), s) and env.eq(o.GetHash(), _tx.sha2(s)), 'copies did not change')
    for f in names + ['other']:
        for o in (a, c):
            r = env.call(setattr, o, f, 1); env.check(not r.ok and r.raised(AttributeError), 'assignment is refused')
            r = env.call(delattr, o, f); env.check(not r.ok and r.raised(AttributeError), 'deletion is refused')
    for o in (a, c): env.check(env.eq(o.serialize(), s), 'unchanged')
    env.reach('done')

def mixed(env):
    """immutable objects made from mutable parts"""
    C = env.mod('bitcoin.core')
    p = C.CMutableOutPoint(env.bytes('h', 32), env.int('n', *U32))
    i = C.CTxIn(p, _tx.script(env, b''), env.int('q', *U32))
    o = C.CMutableTxOut(env.int('v', *I64), _tx.script(env, b''))
    t = C.CTransaction([i], [o]); t2 = C.CTransaction([C.CMutableTxIn(p)], [o])
    ip = C.COutPoint(env.bytes('h3', 32), env.int('n3', *U32)); mi = C.CMutableTxIn(ip, _tx.script(env, b''), env.int('q3', *U32))
    t3 = C.CTransaction([mi], [o]); t4 = C.CTransaction.from_tx(C.CMutableTransaction([mi], [o])); b5 = C.CBlock(vtx=[C.CMutableTransaction([mi], [o])]); i6 = C.CTxIn.from_txin(mi); m7 = C.CMutableTransaction.from_tx(t3)
    more = [(x, x.serialize()) for x in (t3, t4, b5.vtx[0], b5, i6, m7)]
    env.check(i6.__class__ is C.CTxIn and all([x.vin[0].__class__ is C.CTxIn and x.vin[0].prevout.__class__ is C.COutPoint for x in (t3, t4, b5.vtx[0])]), 'fully immutable')
    si = i.serialize(); st = t.serialize(); st2 = t2.serialize()
    env.check(env.eq(si, ref_txin(i)) and env.eq(st, _tx.ref_ser(t)), 'serialization')
    before = bool(env.bool('query before'))
    if before: env.check(env.eq(i.GetHash(), _tx.sha2(si)) and env.eq(t.GetHash(), _tx.sha2(st)), 'hashes')
    mi.nSequence = env.int('q4', *U32); mi.scriptSig = _tx.script(env, b'\x51')
    p.n = env.int('n2', *U32); p.hash = env.bytes('h2', 32); o.nValue = env.int('v2', *I64)
    for x, s in [(i, si), (t, st), (t2, st2)] + more:
        env.check(env.eq(x.serialize(), s), 'did not change')
        if x is not b5: env.check(env.eq(x.GetHash(), _tx.sha2(x.serialize())), 'hash is current')
    env.reach('done')

def defaults(env):
    """default-constructed mutable objects share nothing"""
    C = env.mod('bitcoin.core')
    a = C.CMutableTransaction(); b = C.CMutableTransaction()
    a.vin.append(C.CMutableTxIn()); a.vout.append(C.CMutableTxOut()); a.vin[0].prevout.n = env.int('n', *U32)
    env.check(len(b.vin) == 0 and len(b.vout) == 0 and len(C.CMutableTransaction().vin) == 0, 'lists are not shared')
    x = C.CMutableTxIn(); y = C.CMutableTxIn(); x.prevout.n = env.int('m', *U32); x.prevout.hash = env.bytes('h', 32)
    env.check(env.land(env.eq(y.prevout.n, 0xffffffff), env.eq(C.CMutableTxIn().prevout.n, 0xffffffff), env.eq(C.CTxIn().prevout.n, 0xffffffff)), 'outpoints are not shared')
    env.check(y.prevout.is_null() and env.iff(x.prevout.is_null(), env.land(env.eq(x.prevout.hash, bytes(32)), env.eq(x.prevout.n, 0xffffffff))), 'null')
    env.reach('done')

def immutable(env):
    C = env.mod('bitcoin.core')
    t = _tx.tx(env, 't.', 1, 1)
    h = C.CBlockHeader(env.int('v', *I32), env.bytes('p', 32), env.bytes('r', 32), env.int('t', *U32), env.int('b', *U32), env.int('n', *U32))
    b = C.CBlock(h.nVersion, h.hashPrevBlock, h.hashMerkleRoot, h.nTime, h.nBits, h.nNonce, [t])
    hh = _tx.sha2(ref_header(h))
    for o, names in ((t, ['nVersion', 'vin', 'vout', 'nLockTime']), (h, ['nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce']), (b, ['nVersion', 'hashPrevBlock', 'hashMerkleRoot', 'nTime', 'nBits', 'nNonce', 'vtx', 'vMerkleTree'])):
        s = o.serialize(); o.GetHash(); hash(o)
        for f in names + ['_cached_GetHash', '_cached__hash__']:
            r = env.call(setattr, o, f, 1); env.check(not r.ok and r.raised(AttributeError), 'assignment is refused')
            r = env.call(delattr, o, f); env.check(not r.ok and r.raised(AttributeError), 'deletion is refused')
        env.check(env.eq(o.serialize(), s), 'unchanged')
    env.check(env.eq(h.GetHash(), hh) and env.eq(b.GetHash(), hh) and env.eq(b.GetHash(), hh) and env.eq(b.get_header().GetHash(), hh), 'hashes')
    env.check(hash(t) == hash(C.CTransaction.deserialize(t.serialize())), 'equal objects have equal hashes')
    env.reach('done')

def block(env, n):
    """blocks of mutable transactions"""
    C = env.mod('bitcoin.core')
    ts = [_tx.tx(env, 't%d.' % k, 1, 1, mutable=True) for k in range(n)]
    b = C.CBlock(vtx=ts)
    s = b.serialize(); ids = [_tx.sha2(_tx.ref_ser(t)) for t in ts]
    for k in range(n): mutate(env, ts[k], 4, k); mutate(env, ts[k], 7, 10 + k); ts[k].vin.append(C.CMutableTxIn())
    env.check(env.eq(b.serialize(), s), 'the block did not change')
    for k in range(n): env.check(b.vtx[k].__class__ is C.CTransaction and env.eq(b.vtx[k].GetHash(), ids[k]) and env.eq(b.vMerkleTree[k], ids[k]), 'transaction ids')
    env.check(env.eq(b.GetHash(), _tx.sha2(ref_header(b))), 'block hash')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    shapes = [(0, 0), (1, 1), (2, 1)] + ([(2, 2), (0, 1), (1, 0)] if T else [])
    for a, b in shapes:
        for f in range(len(MUT) + 3):
            cs.append(dict(name='history_%d_%d_%s' % (a, b, (MUT + ['freeze', 'copy', 'query'])[f]), fn='history', args=dict(nin=a, nout=b, first=f, depth=3 if not T else 4), reach=['done', 'frozen'], weight=5))
    for k in PARTS:
        for n in (0, 2): cs.append(dict(name='part_%s_%d' % (k, n), fn='part', args=dict(kind=k, n=n), reach=['done']))
    cs += [dict(name='mixed', fn='mixed', reach=['done']), dict(name='defaults', fn='defaults', reach=['done']), dict(name='immutable', fn='immutable', reach=['done'])]
    for n in (0, 1, 2): cs.append(dict(name='block_%d' % n, fn='block', args=dict(n=n), reach=['done']))
    return cs
