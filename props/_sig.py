"""Signature checks with an arbitrary signature relation in place of the elliptic-curve library."""
from props import _tx

def patch(env):
    K = env.mod('bitcoin.core.key')
    class Key:
        def __init__(self): self.pub = None
        def set_pubkey(self, pub): self.pub = bytes(pub)
        def verify(self, h, sig): return env.oracle_bool('sig', self.pub, bytes(h), bytes(sig))
    env.patch(K, 'CECKey', Key)

def tx(env, nin=2, nout=2, concrete=True):
    C = env.mod('bitcoin.core')
    return C.CTransaction([C.CTxIn(C.COutPoint(bytes([k]) * 32, k), _tx.script(env, bytes([0x51 + k])), 5 + k) for k in range(nin)], [C.CTxOut(7 + k, _tx.script(env, bytes([0x61 + k]))) for k in range(nout)], 3, 2)

def parse_delete(script, pat):
    """the script without the operations whose bytes are exactly the pattern"""
    from props import _script
    script = bytes(script)
    ops, part, good = _script.parse(script)
    ends = [o[2] for o in ops[1:]]
    if ops: ends.append(ops[-1][2] + op_size(script, ops[-1]))
    out = b''
    for o, end in zip(ops, ends):
        one = script[o[2]:end]
        if not (len(one) == len(pat) and one == pat): out = out + one
    return out + script[(ends[-1] if ends else 0):]

def op_size(script, o):
    op, data, start = o
    if data is None: return 1
    return 1 + (0 if op < 0x4c else 1 if op == 0x4c else 2 if op == 0x4d else 4) + len(data)

def preimage(t, i, code, ht):
    """what a signature commits to; None for the special digest one"""
    single = (ht & 0x1f) == 3; none = (ht & 0x1f) == 2
    if i >= len(t.vin): return None
    if single and i >= len(t.vout): return None
    code = parse_delete(code, b'\xab')
    def one(j, x):
        s = code if j == i else b''
        q = x.nSequence
        if j != i and (none or single): q = 0
        return bytes(x.prevout.hash) + _tx.le(x.prevout.n, 4) + _tx.vint(len(s)) + s + _tx.le(q, 4)
    ins = [one(j, x) for j, x in enumerate(t.vin) if not (ht & 0x80) or j == i]
    outs = [_tx.le(o.nValue, 8) + _tx.vint(len(o.scriptPubKey)) + bytes(o.scriptPubKey) for o in t.vout]
    if none: outs = []
    elif single: outs = [b'\xff' * 8 + b'\x00'] * i + [outs[i]]
    return _tx.le(t.nVersion, 4) + _tx.vint(len(ins)) + b''.join(ins) + _tx.vint(len(outs)) + b''.join(outs) + _tx.le(t.nLockTime, 4) + _tx.le(ht, 4)

def digest(t, i, code, ht):
    p = preimage(t, i, code, ht)
    return b'\x01' + bytes(31) if p is None else _tx.sha2(p)

class Sigs:
    """the signature rules of the reference interpreter"""
    def __init__(self, env, t, i, script):
        self.env = env; self.tx = t; self.i = i; self.script = bytes(script); self.start = 0
    def index(self, n): return self.env.concrete(n)
    def separator(self, p): self.start = p
    def valid(self, sig, pub, code):
        if len(sig) == 0: return False
        h = digest(self.tx, self.i, code, sig[-1])
        return self.env.oracle_bool('sig', bytes(pub), h, bytes(sig[:-1]))
    def one(self, sig, pub):
        from props import _script
        return self.valid(sig, pub, parse_delete(self.script[self.start:], _script.push(sig)))
    def many(self, sigs, keys):
        """in order, every signature for a later key than the one before it: dynamic programming over all matchings"""
        from props import _script
        code = self.script[self.start:]
        for s in sigs: code = parse_delete(code, _script.push(s))
        env = self.env
        ok = {}
        # ok[a, b]: the first a signatures can be matched within the first b keys
        for b in range(len(keys) + 1): ok[0, b] = True
        for a in range(1, len(sigs) + 1):
            for b in range(len(keys) + 1):
                if b < a: ok[a, b] = False; continue
                ok[a, b] = env.lor(ok[a, b - 1], env.land(ok[a - 1, b - 1], self.valid(sigs[a - 1], keys[b - 1], code)) if ok[a - 1, b - 1] is not False else False)
        return ok[len(sigs), len(keys)]

def ref_without_scripts(t):
    out = _tx.le(t.nVersion, 4)
    for i in t.vin: out += bytes(i.prevout.hash) + _tx.le(i.prevout.n, 4) + _tx.le(i.nSequence, 4)
    for o in t.vout: out += _tx.le(o.nValue, 8) + _tx.vint(len(o.scriptPubKey)) + bytes(o.scriptPubKey)
    return out + _tx.le(t.nLockTime, 4)
