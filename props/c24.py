"""C24 block Merkle roots"""
from props import _tx
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize']
BOUNDS = '1..9 transaction ids (thorough: also 10..17, 31..33, 64, 65) of 32 arbitrary bytes, longer lists up to 65 (thorough 1000) with three arbitrary ids; pairs of lists of equal length up to 9 (thorough 17); blocks of 0..5 transactions with all fields symbolic, constructed and received'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def levels(ids):
    """the Bitcoin definition, level by level"""
    out = [list(ids)]
    while len(out[-1]) > 1:
        l = list(out[-1])
        if len(l) % 2: l.append(l[-1])
        out.append([_tx.sha2(l[k] + l[k + 1]) for k in range(0, len(l), 2)])
    return out

def tree(env, n):
    C = env.mod('bitcoin.core')
    ids = [env.bytes('t%d' % k, 32) for k in range(n)]
    t = C.CBlock.build_merkle_tree_from_txids(ids)
    want = levels(ids)
    env.check(env.eq(t[-1], want[-1][0]), 'the root')
    flat = [h for l in want for h in l]
    env.check(len(t) == len(flat), 'number of nodes')
    if len(t) == len(flat): env.check(env.land(*[env.eq(a, b) for a, b in zip(t, flat)]), 'all nodes, deepest level first')
    env.check(len(ids) == n, 'the argument is not changed')
    t2 = C.CBlock.build_merkle_tree_from_txids(tuple(ids))
    env.check(env.eq(t2[-1], t[-1]), 'any sequence')
    env.reach('done')

def pair(env, n):
    C = env.mod('bitcoin.core')
    a = [env.bytes('a%d' % k, 32) for k in range(n)]; b = [env.bytes('b%d' % k, 32) for k in range(n)]
    x = C.CBlock.build_merkle_tree_from_txids(a)[-1]; y = C.CBlock.build_merkle_tree_from_txids(b)[-1]
    env.check(env.iff(env.eq(x, y), env.land(*[env.eq(p, q) for p, q in zip(a, b)])), 'equal roots exactly for equal ids')
    env.reach('done')

def one(env, n, k):
    """changing one id changes the root"""
    C = env.mod('bitcoin.core')
    a = [env.bytes('a%d' % j, 32) for j in range(n)]
    b = list(a); b[k] = env.bytes('b', 32)
    x = C.CBlock.build_merkle_tree_from_txids(a)[-1]; y = C.CBlock.build_merkle_tree_from_txids(b)[-1]
    env.check(env.iff(env.eq(x, y), env.eq(a[k], b[k])), 'the root depends on every id')
    env.reach('done')

def block(env, n, mutable):
    C = env.mod('bitcoin.core')
    ts = [_tx.tx(env, 't%d.' % k, 1, k % 2, 1, 1, mutable) for k in range(n)]
    ids = [_tx.sha2(_tx.ref_ser(t)) for t in ts]
    root = levels(ids)[-1][0] if n else None
    h = C.CBlockHeader(env.int('v', -2**31, 2**31 - 1), env.bytes('p', 32), env.bytes('r', 32), env.int('time', 0, 2**32 - 1), env.int('bits', 0, 2**32 - 1), env.int('nonce', 0, 2**32 - 1))
    b = C.CBlock(h.nVersion, h.hashPrevBlock, h.hashMerkleRoot, h.nTime, h.nBits, h.nNonce, ts)
    for x in (b, C.CBlock.deserialize(b.serialize())):
        env.check(len(x.vtx) == n and env.eq(x.hashMerkleRoot, h.hashMerkleRoot), 'the stated root is kept')
        r = env.call(x.calc_merkle_root)
        if n: env.check(r.ok and env.eq(r.value, root) and env.eq(x.vMerkleTree[-1], root) and env.eq(C.CBlock.build_merkle_tree_from_txs(x.vtx)[-1], root), 'root of the transactions')
        else: env.check(not r.ok and r.raised(ValueError) and len(x.vMerkleTree) == 0, 'no root without transactions')
    env.reach('done')

def long(env, n):
    """long lists, of which the first, last and a middle id are arbitrary"""
    C = env.mod('bitcoin.core')
    ids = [env.bytes('t%d' % k, 32) if k in (0, n // 2, n - 1) else bytes([k % 256, k // 256]) * 16 for k in range(n)]
    t = C.CBlock.build_merkle_tree_from_txids(ids)
    flat = [h for l in levels(ids) for h in l]
    env.check(len(t) == len(flat) and env.land(*[env.eq(a, b) for a, b in zip(t, flat)]), 'all nodes, deepest level first')
    env.reach('done')

def accepts(env, n):
    """the block check accepts exactly that root"""
    C = env.mod('bitcoin.core')
    cb = C.CTransaction([C.CTxIn(C.COutPoint(), _tx.script(env, b'\x01\x02'))], [C.CTxOut(1)])
    ts = [cb] + [C.CTransaction([C.CTxIn(C.COutPoint(env.bytes('h%d' % k, 32), k))], [C.CTxOut(0)]) for k in range(1, n)]
    root = levels([_tx.sha2(_tx.ref_ser(t)) for t in ts])[-1][0]
    r = env.bytes('root', 32)
    b = C.CBlock(2, bytes(32), r, 0, 0, 0, ts)
    q = env.call(C.CheckBlock, b, False, True, 0)
    env.check(q.ok or q.raised(C.CheckBlockError), 'refusal')
    env.check(env.iff(q.ok, env.eq(r, root)), 'accepted exactly with the root')
    env.check(env.call(C.CheckBlock, b, False, False, 0).ok, 'unless not asked to check')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in list(range(1, 10)) + ([10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 65] if T else []): cs.append(dict(name='tree_%d' % n, fn='tree', args=dict(n=n), reach=['done'], weight=n))
    for n in (10, 11, 13, 17, 21, 23, 33, 43, 65) + ((100, 255, 257, 1000) if T else ()): cs.append(dict(name='long_%d' % n, fn='long', args=dict(n=n), reach=['done'], weight=n))
    for n in range(1, 18 if T else 10): cs.append(dict(name='pair_%d' % n, fn='pair', args=dict(n=n), reach=['done'], weight=n))
    for n in range(1, 18 if T else 10):
        for k in range(n): cs.append(dict(name='one_%d_%d' % (n, k), fn='one', args=dict(n=n, k=k), reach=['done'], weight=n))
    for n in range(0, 8 if T else 6):
        for m in (False, True): cs.append(dict(name='block_%d_%d' % (n, m), fn='block', args=dict(n=n, mutable=m), reach=['done'], weight=2 * n))
    for n in range(1, 6 if T else 4): cs.append(dict(name='accepts_%d' % n, fn='accepts', args=dict(n=n), reach=['done'], weight=2 * n))
    return cs
