"""C26 block and header checks"""
from props import _tx
from props.c22 import I32, U32, ref_header
from props.c24 import levels
PRELOAD = ['bitcoin', 'bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize']
BOUNDS = 'headers with all fields, clock and target symbolic (exponents 0..36 and 255, three networks); blocks of 0..4 transactions (thorough 5) whose coinbase status, outpoints, values and Merkle root are symbolic; serialized sizes 999998..1000002; 19999..20001 and 20020 signature operations in one or several transactions'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def header(env, bits=None, root=None):
    C = env.mod('bitcoin.core')
    return C.CBlockHeader(env.int('ver', *I32), env.bytes('prev', 32), env.bytes('root', 32) if root is None else root, env.int('time', *U32), env.int('bits', *U32) if bits is None else bits, env.int('nonce', *U32))

def head(env, e, net, default):
    C = env.mod('bitcoin.core')
    C._SelectCoreParams(net)
    m = env.int('mantissa', 0, 0xffffff); now = env.int('now', -2**40, 2**40)
    h = header(env, (e << 24) | m)
    pow_ok = env.call(C.CheckProofOfWork, _tx.sha2(ref_header(h)), (e << 24) | m).ok     # C27 decides CheckProofOfWork
    flag = env.concrete(env.bool('check pow'))
    kw = dict(fCheckPoW=flag)
    if flag and env.concrete(env.bool('default flag')): kw = {}
    if default: env.set_time(now)
    else: kw['cur_time'] = now
    r = env.call(C.CheckBlockHeader, h, **kw)
    env.check(r.ok or r.raised(C.CheckBlockHeaderError) and r.raised(C.ValidationError), 'no other error')
    env.check(env.iff(r.ok, env.land(h.nTime <= now + 7200, pow_ok or not flag)), 'accepted exactly when the time and the work are right')
    env.reach('%s %s' % (r.ok, flag))

def txs(env, n, sub=''):
    """transactions that may or may not be coinbases, valid, or repeated"""
    C = env.mod('bitcoin.core'); out = []
    for k in range(n):
        p = 't%d.' % k
        out.append(C.CTransaction([C.CTxIn(C.COutPoint(env.bytes(p + 'h', 32), env.int(p + 'n', *U32)), _tx.script(env, b'\x61' * (2 if k != 1 else 1)))],
                                  [C.CTxOut(env.int(p + 'v', -2**63, 2**63 - 1))], 0, env.int(p + 'ver', 0, 1)))
    return out

def coinbase(env, t): return env.land(len(t.vin) == 1, env.eq(t.vin[0].prevout.hash, bytes(32)), env.eq(t.vin[0].prevout.n, 0xffffffff))

def valid_tx(env, t):
    "the transaction check for one-input one-output transactions"
    return env.land(t.vout[0].nValue >= 0, t.vout[0].nValue <= 21 * 10**14, env.implies(coinbase(env, t), 2 <= len(t.vin[0].scriptSig) <= 100))

def block(env, n, check_root):
    C = env.mod('bitcoin.core')
    ts = txs(env, n)
    root = levels([_tx.sha2(_tx.ref_ser(t)) for t in ts])[-1][0] if n else bytes(32)
    good_root = env.concrete(env.bool('good root'))
    h = header(env, 0, root if good_root else None)
    b = C.CBlock(h.nVersion, h.hashPrevBlock, h.hashMerkleRoot, h.nTime, 0, h.nNonce, ts)
    now = env.int('now', 0, 2**40)
    kw = {} if check_root and env.concrete(env.bool('default')) else dict(fCheckMerkleRoot=check_root)
    r = env.call(C.CheckBlock, b, fCheckPoW=False, cur_time=now, **kw)
    env.check(r.ok or r.raised(C.ValidationError), 'no other error')
    cs = [n > 0]
    for k, t in enumerate(ts):
        cs.append(coinbase(env, t) if k == 0 else env.lnot(coinbase(env, t)))
        cs.append(valid_tx(env, t))
        for j in range(k): cs.append(env.lnot(_tx.same(env, t, ts[j])))
    if check_root: cs.append(env.eq(h.hashMerkleRoot, root))
    env.check(env.iff(r.ok, env.land(h.nTime <= now + 7200, *cs)), 'accepted exactly when valid')
    env.reach('ok' if r.ok else 'refused')

def header_first(env, net):
    """the proof of work flag reaches the header check"""
    C = env.mod('bitcoin.core'); C._SelectCoreParams(net)
    cb = C.CTransaction([C.CTxIn(C.COutPoint(), _tx.script(env, b'\x01\x02'))], [C.CTxOut(1)])
    root = _tx.sha2(_tx.ref_ser(cb))
    e = 0x20 if net == 'regtest' else 0x1d
    m = env.int('mantissa', 0, 0xffffff)
    h = header(env, (e << 24) | m, root)
    b = C.CBlock(h.nVersion, h.hashPrevBlock, root, h.nTime, h.nBits, h.nNonce, [cb])
    now = env.int('now', 0, 2**40); env.set_time(now)
    pow_ok = env.call(C.CheckProofOfWork, _tx.sha2(ref_header(h)), (e << 24) | m).ok
    r = env.call(C.CheckBlock, b); q = env.call(C.CheckBlock, b, False)
    env.check(env.iff(q.ok, h.nTime <= now + 7200), 'time')
    env.check(env.iff(r.ok, env.land(pow_ok, h.nTime <= now + 7200)), 'time and work')
    env.reach('%s' % r.ok)

def size(env, total):
    C = env.mod('bitcoin.core')
    n = total - (80 + 1 + (4 + 1 + 36 + 1 + 2 + 4 + 1 + 9 + 4) + (4 + 1 + 36 + 1 + 4 + 1 + 8 + 5 + 4))
    cb = C.CTransaction([C.CTxIn(C.COutPoint(), _tx.script(env, b'\x01\x02'))], [C.CTxOut(1)])
    t = C.CTransaction([C.CTxIn(C.COutPoint(env.bytes('h', 32), 0))], [C.CTxOut(env.int('v', 0, 5), _tx.script(env, b'\x4e\xff\xff\xff\xff' + bytes(n - 5)))])
    b = C.CBlock(vtx=[cb, t])
    env.check(len(b.serialize()) == total, 'size')
    r = env.call(C.CheckBlock, b, False, False, 0)
    env.check(r.ok or r.raised(C.CheckBlockError), 'no other error')
    env.check(r.ok == (total <= 1000000), 'size limit')
    env.reach('done')

def sigops(env, spread):
    """spread: signature operations per place: coinbase in, coinbase out, then (in, out) of further transactions"""
    C = env.mod('bitcoin.core')
    def sc(n, p):
        "n sigops, one of them with a symbolic opcode"
        op = env.choice(p, 2)
        if n == 0: return _tx.script(env, b'\x61\x61')
        m = n // 20; r = n % 20
        return _tx.script(env, b'\x61' + bytes([0xae + op]) * m + bytes([0xac + op]) * r)
    ss = [sc(n, 'op%d' % k) for k, n in enumerate(spread)]
    ts = [C.CTransaction([C.CTxIn(C.COutPoint(), ss[0] if len(ss[0]) <= 100 else _tx.script(env, bytes(2)))], [C.CTxOut(0, ss[1])])]
    for k in range(2, len(spread), 2):
        ts.append(C.CTransaction([C.CTxIn(C.COutPoint(env.bytes('h%d' % k, 32), 0), ss[k])], [C.CTxOut(env.int('v%d' % k, 0, 9), ss[k + 1])]))
    env.assume(env.land(*[env.lnot(env.eq(t.vin[0].prevout.hash, bytes(32))) for t in ts[1:]]))
    if len(ts) > 2: env.assume(env.lnot(env.eq(ts[1].vin[0].prevout.hash, ts[2].vin[0].prevout.hash)))
    for t, n in zip(ts, [sum(spread[k:k + 2]) for k in range(0, len(spread), 2)]): env.check(C.GetLegacySigOpCount(t) == n, 'count')
    b = C.CBlock(vtx=ts)
    r = env.call(C.CheckBlock, b, False, False, 0)
    env.check(r.ok or r.raised(C.CheckBlockError), 'no other error')
    env.check(r.ok == (sum(spread) <= 20000), 'signature operation limit')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for net in ('mainnet', 'testnet', 'regtest'):
        for e in (range(0, 37) if T else (0, 2, 3, 4, 28, 29, 30, 32, 33)) if net != 'testnet' else (3, 29):
            for d in (False, True):
                ok = 1 <= e <= (29 if net != 'regtest' else 32)
                cs.append(dict(name='header_%s_%d_%d' % (net, e, d), fn='head', args=dict(e=e, net=net, default=d), reach=['True False', 'False False', 'False True'] + (['True True'] if ok else [])))
        cs.append(dict(name='header_first_%s' % net, fn='header_first', args=dict(net=net), reach=['True', 'False']))
    for n in range(0, 6 if T else 5):
        for c in (True, False): cs.append(dict(name='block_%d_%d' % (n, c), fn='block', args=dict(n=n, check_root=c), reach=['refused'] + (['ok'] if n else []), weight=3 * n, opts=dict(case_s=2000)))
    for s in range(999998, 1000003): cs.append(dict(name='size_%d' % s, fn='size', args=dict(total=s), reach=['done'], weight=10))
    for i, s in enumerate([[0, 0, 0, 0], [10, 0, 0, 0], [0, 20000], [0, 20001], [0, 20020], [1, 20000], [60, 19940], [60, 19941], [0, 0, 20000, 0], [0, 0, 20001, 0], [0, 0, 0, 20000], [0, 0, 0, 20001], [0, 0, 19999, 2], [0, 0, 10000, 10000], [0, 0, 10000, 0, 0, 10001], [0, 1, 9999, 0, 0, 10000], [0, 1, 10000, 0, 0, 10000]]):
        cs.append(dict(name='sigops_%d' % i, fn='sigops', args=dict(spread=s), reach=['done'], weight=10))
    return cs
