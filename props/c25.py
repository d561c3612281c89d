"""C25 context-free transaction checks"""
from props import _tx
from props.c22 import I32, I64, U32
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize']
BOUNDS = 'transactions of 0..3 inputs and 0..3 outputs (thorough 4), with all fields over their full ranges, immutable and mutable; lists of up to 40 inputs and 256 outputs with an arbitrary last index and value; coinbase scripts of 0, 1, 2, 3, 99, 100, 101, 102 bytes; serialized sizes 999998 to 1000002'

def make(env, nin, nout, slen, mutable=False):
    C = env.mod('bitcoin.core')
    I, O, P, X = (C.CMutableTxIn, C.CMutableTxOut, C.CMutableOutPoint, C.CMutableTransaction) if mutable else (C.CTxIn, C.CTxOut, C.COutPoint, C.CTransaction)
    return X([I(P(env.bytes('h%d' % j, 32), env.int('n%d' % j, *U32)), _tx.script(env, env.bytes('s%d' % j, slen)), env.int('q%d' % j, *U32)) for j in range(nin)],
             [O(env.int('v%d' % j, *I64), _tx.script(env, b'')) for j in range(nout)], env.int('lt', *U32), env.int('ver', *I32))

def null(env, i): return env.land(env.eq(i.prevout.hash, bytes(32)), env.eq(i.prevout.n, 0xffffffff))

def valid(env, t, slen):
    """the rules, in any order"""
    M = 21 * 10**14
    if not len(t.vin) or not len(t.vout): return False
    cs = []; total = 0
    for o in t.vout:
        total = total + o.nValue
        cs += [o.nValue >= 0, o.nValue <= M, total >= 0, total <= M]
    for a in range(len(t.vin)):
        for b in range(a): cs.append(env.lnot(env.land(env.eq(t.vin[a].prevout.hash, t.vin[b].prevout.hash), env.eq(t.vin[a].prevout.n, t.vin[b].prevout.n))))
    if len(t.vin) == 1: cs.append(env.implies(null(env, t.vin[0]), 2 <= slen <= 100))
    else: cs += [env.lnot(null(env, i)) for i in t.vin]
    return env.land(*cs)

def check(env, nin, nout, slen, mutable):
    C = env.mod('bitcoin.core')
    t = make(env, nin, nout, slen, mutable)
    r = env.call(C.CheckTransaction, t)
    env.check(r.ok or r.raised(C.CheckTransactionError) and r.raised(C.ValidationError), 'no other error')
    env.check(env.iff(r.ok, valid(env, t, slen)), 'accepted exactly when valid')
    env.check(env.iff(t.is_coinbase(), nin == 1 and null(env, t.vin[0])), 'coinbase')
    env.reach('ok' if r.ok else 'refused')
    if r.ok and nin == 1: env.reach('coinbase' if t.is_coinbase() else 'other')

def many(env, nin, nout):
    """long lists: the last output is arbitrary, and so is the index of the last input"""
    C = env.mod('bitcoin.core')
    t = C.CTransaction([C.CTxIn(C.COutPoint(b'\x07' * 32, j if j < nin - 1 else env.int('n', *U32))) for j in range(nin)],
                       [C.CTxOut(env.int('v%d' % j, *I64) if j == nout - 1 else 21 * 10**14 // nout) for j in range(nout)])
    r = env.call(C.CheckTransaction, t)
    env.check(r.ok or r.raised(C.CheckTransactionError), 'no other error')
    env.check(env.iff(r.ok, valid(env, t, 0)), 'accepted exactly when valid')
    env.reach('ok' if r.ok else 'refused')

def size(env, total):
    C = env.mod('bitcoin.core')
    n = total - (4 + 1 + 36 + 5 + 4 + 1 + 9 + 4)
    t = C.CTransaction([C.CTxIn(C.COutPoint(env.bytes('h', 32), env.int('n', 0, 5)), _tx.script(env, bytes(n)))], [C.CTxOut(env.int('v', *I64))])
    env.check(len(t.serialize()) == total, 'size')
    r = env.call(C.CheckTransaction, t)
    env.check(r.ok or r.raised(C.CheckTransactionError), 'no other error')
    env.check(env.iff(r.ok, env.land(total <= 1000000, t.vout[0].nValue >= 0, t.vout[0].nValue <= 21 * 10**14)), 'size limit')
    env.reach('done')

def money(env):
    C = env.mod('bitcoin.core')
    v = env.int('v', -2**70, 2**70)
    env.check(env.iff(C.MoneyRange(v), env.land(v >= 0, v <= 21 * 10**14)), 'money range')
    o = C.CTxOut(v, _tx.script(env, env.bytes('s', 1)))
    env.check(env.iff(o.is_valid(), env.land(v >= 0, v <= 21 * 10**14, env.lor(o.scriptPubKey[0] == 0, o.scriptPubKey[0] > 0x4e))), 'output validity')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    N = 5 if T else 4
    for a in range(N):
        for b in range(N):
            cs.append(dict(name='check_%d_%d' % (a, b), fn='check', args=dict(nin=a, nout=b, slen=2, mutable=False), reach=['refused'] + (['ok'] if a and b else []), weight=a * b))
    for a, b in ((2, 16), (2, 17), (2, 256), (9, 1), (17, 2), (40, 1)): cs.append(dict(name='many_%d_%d' % (a, b), fn='many', args=dict(nin=a, nout=b), reach=['refused', 'ok'], weight=20))
    cs.append(dict(name='mutable_2_2', fn='check', args=dict(nin=2, nout=2, slen=2, mutable=True), reach=['refused', 'ok']))
    cs.append(dict(name='mutable_1_1', fn='check', args=dict(nin=1, nout=1, slen=2, mutable=True), reach=['refused', 'ok']))
    for s in (0, 1, 2, 3, 99, 100, 101, 102) + (tuple(range(4, 99, 9)) if T else ()):
        cs.append(dict(name='coinbase_%d' % s, fn='check', args=dict(nin=1, nout=1, slen=s, mutable=False), reach=['refused', 'other'] + (['coinbase'] if 2 <= s <= 100 else [])))
    for s in range(999998, 1000003): cs.append(dict(name='size_%d' % s, fn='size', args=dict(total=s), reach=['done'], weight=10))
    cs.append(dict(name='money', fn='money', reach=['done']))
    return cs
