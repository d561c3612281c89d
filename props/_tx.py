"""Transactions for the harnesses."""
import hashlib

def tx(env, p, nin=1, nout=1, slen=2, sslen=0, mutable=False):
    C = env.mod('bitcoin.core')
    cls = C.CMutableTransaction if mutable else C.CTransaction
    I = C.CMutableTxIn if mutable else C.CTxIn
    O = C.CMutableTxOut if mutable else C.CTxOut
    P = C.CMutableOutPoint if mutable else C.COutPoint
    sl = lambda s, j: s[j] if isinstance(s, (list, tuple)) else s
    vin = [I(P(env.bytes('%sin%d.h' % (p, j), 32), env.int('%sin%d.n' % (p, j), 0, 0xffffffff)), script(env, env.bytes('%sin%d.s' % (p, j), sl(sslen, j))),
             env.int('%sin%d.q' % (p, j), 0, 0xffffffff)) for j in range(nin)]
    vout = [O(env.int('%sout%d.v' % (p, j), 0, 21 * 10**14), script(env, env.bytes('%sout%d.s' % (p, j), sl(slen, j)))) for j in range(nout)]
    return cls(vin, vout, env.int(p + 'lt', 0, 0xffffffff), env.int(p + 'ver', 0, 0x7fffffff))

def script(env, b):
    return env.mod('bitcoin.core.script').CScript(b)

def le(v, n): return bytes([(v >> (8 * i)) & 0xff for i in range(n)])

def vint(n):
    if n < 253: return bytes([n])
    if n < 0x10000: return b'\xfd' + le(n, 2)
    return b'\xfe' + le(n, 4)

def ref_ser(t):
    """the Bitcoin wire format of a transaction, written independently of the library"""
    out = le(t.nVersion, 4) + vint(len(t.vin))
    for i in t.vin: out += bytes(i.prevout.hash) + le(i.prevout.n, 4) + vint(len(i.scriptSig)) + bytes(i.scriptSig) + le(i.nSequence, 4)
    out += vint(len(t.vout))
    for o in t.vout: out += le(o.nValue, 8) + vint(len(o.scriptPubKey)) + bytes(o.scriptPubKey)
    return out + le(t.nLockTime, 4)

def sha2(b): return hashlib.sha256(hashlib.sha256(b).digest()).digest()
def hash160(b): return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()

def same(env, a, b):
    if len(a.vin) != len(b.vin) or len(a.vout) != len(b.vout): return False
    return env.land(env.eq(a.nVersion, b.nVersion), env.eq(a.nLockTime, b.nLockTime),
        *([env.land(env.eq(x.prevout.hash, y.prevout.hash), env.eq(x.prevout.n, y.prevout.n), env.eq(bytes(x.scriptSig), bytes(y.scriptSig)), env.eq(x.nSequence, y.nSequence)) for x, y in zip(a.vin, b.vin)]
          + [env.land(env.eq(x.nValue, y.nValue), env.eq(bytes(x.scriptPubKey), bytes(y.scriptPubKey))) for x, y in zip(a.vout, b.vout)]))
