"""A reference script interpreter, written from the Bitcoin rules, independently of the library."""
import hashlib
from props import _script

class Bad(Exception): pass

DISABLED = [0x65, 0x66, 0x7e, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x85, 0x86, 0x8d, 0x8e, 0x95, 0x96, 0x97, 0x98, 0x99]
MSG = {}

def truth(b):
    "any non-zero byte, except a sign bit alone in the last place"
    n = len(b)
    for j in range(n):
        if b[j] != 0: return not (j == n - 1 and b[j] == 0x80)
    return False

def operand(b):
    if len(b) > 4: raise Bad('number too long')
    return _script.unnum(b)

def boolean(c):
    if c: return b'\x01'
    return b''

def step(op, st, alt, count, sigs):
    """one executed operation that is neither a push nor a conditional"""
    def need(n):
        if len(st) < n: raise Bad('too few elements')
    if op == 0x4f: st.append(_script.num(-1)); return
    if 0x51 <= op <= 0x60: st.append(bytes([op - 0x50])); return
    if op == 0x61 or 0xb0 <= op <= 0xb9: return
    if op == 0x69:
        need(1)
        if not truth(st[-1]): raise Bad('verify')
        st.pop(); return
    if op == 0x6b: need(1); alt.append(st.pop()); return
    if op == 0x6c:
        if not alt: raise Bad('alt stack')
        st.append(alt.pop()); return
    # stack manipulation as pictures: how many elements, and what replaces them
    pics = {0x6d: (2, []), 0x6e: (2, [0, 1, 0, 1]), 0x6f: (3, [0, 1, 2, 0, 1, 2]), 0x70: (4, [0, 1, 2, 3, 0, 1]), 0x71: (6, [2, 3, 4, 5, 0, 1]), 0x72: (4, [2, 3, 0, 1]),
            0x75: (1, []), 0x76: (1, [0, 0]), 0x77: (2, [1]), 0x78: (2, [0, 1, 0]), 0x7b: (3, [1, 2, 0]), 0x7c: (2, [1, 0]), 0x7d: (2, [1, 0, 1])}
    if op in pics:
        n, out = pics[op]; need(n)
        top = st[len(st) - n:]
        st[len(st) - n:] = [top[j] for j in out]; return
    if op == 0x73:
        need(1)
        if truth(st[-1]): st.append(st[-1])
        return
    if op == 0x74: st.append(_script.num(len(st))); return
    if op in (0x79, 0x7a):
        need(2)
        n = operand(st.pop())
        for j in range(len(st)):
            if n == j:
                v = st[len(st) - 1 - j]
                if op == 0x7a: del st[len(st) - 1 - j]
                st.append(v); return
        raise Bad('index')
    if op == 0x82: need(1); st.append(_script.num(len(st[-1]))); return
    if op in (0x87, 0x88):
        need(2)
        a = st.pop(); b = st.pop()
        same = len(a) == len(b) and a == b
        if op == 0x87: st.append(boolean(same))
        elif not same: raise Bad('equalverify')
        return
    if op in (0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92):
        need(1)
        n = operand(st.pop())
        if op == 0x8b: st.append(_script.num(n + 1))
        elif op == 0x8c: st.append(_script.num(n - 1))
        elif op == 0x8f: st.append(_script.num(-n))
        elif op == 0x90: st.append(_script.num(n if n >= 0 else -n))
        elif op == 0x91: st.append(boolean(n == 0))
        else: st.append(boolean(n != 0))
        return
    if 0x93 <= op <= 0xa4:
        need(2)
        b = operand(st[-1]); a = operand(st[-2])
        st.pop(); st.pop()
        if op == 0x93: st.append(_script.num(a + b))
        elif op == 0x94: st.append(_script.num(a - b))
        elif op == 0x9a: st.append(boolean(a != 0 and b != 0))
        elif op == 0x9b: st.append(boolean(a != 0 or b != 0))
        elif op == 0x9c: st.append(boolean(a == b))
        elif op == 0x9d:
            if a != b: raise Bad('numequalverify')
        elif op == 0x9e: st.append(boolean(a != b))
        elif op == 0x9f: st.append(boolean(a < b))
        elif op == 0xa0: st.append(boolean(a > b))
        elif op == 0xa1: st.append(boolean(a <= b))
        elif op == 0xa2: st.append(boolean(a >= b))
        elif op == 0xa3: st.append(_script.num(a if a < b else b))
        elif op == 0xa4: st.append(_script.num(a if a > b else b))
        return
    if op == 0xa5:
        need(3)
        hi = operand(st[-1]); lo = operand(st[-2]); x = operand(st[-3])
        del st[len(st) - 3:]
        st.append(boolean(lo <= x and x < hi)); return
    if 0xa6 <= op <= 0xaa:
        need(1)
        d = st.pop()
        s = lambda x: hashlib.sha256(x).digest()
        r = lambda x: hashlib.new('ripemd160', x).digest()
        if op == 0xa6: st.append(r(d))
        elif op == 0xa7: st.append(hashlib.sha1(d).digest())
        elif op == 0xa8: st.append(s(d))
        elif op == 0xa9: st.append(r(s(d)))
        else: st.append(s(s(d)))
        return
    if op in (0xac, 0xad):
        need(2)
        pub = st.pop(); sig = st.pop()
        good = sigs.one(sig, pub)
        if op == 0xac: st.append(boolean(good))
        elif not good: raise Bad('checksigverify')
        return
    if op in (0xae, 0xaf):
        need(1)
        n = operand(st[-1])
        if n < 0 or n > 20: raise Bad('keys')
        n = sigs.index(n)
        count[0] += n
        if count[0] > 201: raise Bad('operations')
        need(n + 2)
        m = operand(st[-2 - n])
        if m < 0 or m > n: raise Bad('signatures')
        m = sigs.index(m)
        need(n + m + 3)
        keys = [st[-2 - j] for j in range(n)]; ss = [st[-3 - n - j] for j in range(m)]
        good = sigs.many(ss, keys)
        del st[len(st) - (n + m + 3):]
        if op == 0xae: st.append(boolean(good))
        elif not good: raise Bad('checkmultisigverify')
        return
    raise Bad('no such operation')

def run(env, script, stack, sigs=None):
    """the final stack, or None when evaluation fails"""
    st = list(stack); alt = []; cond = []; count = [0]
    if len(script) > 10000: MSG['why'] = 'script size'; return None
    ops, part, good = _script.parse(script)
    try:
        for op, data, start in ops:
            live = all(cond)
            if data is not None:
                if len(data) > 520: raise Bad('element size')
                if live: st.append(data)
            else:
                if op > 0x60: count[0] += 1
                if count[0] > 201: raise Bad('operations')
                if op in DISABLED: raise Bad('disabled')
                if op in (0x63, 0x64):
                    v = False
                    if live:
                        if not st: raise Bad('if without argument')
                        v = truth(st.pop())
                        if op == 0x64: v = not v
                    cond.append(v)
                elif op == 0x67:
                    if not cond: raise Bad('else')
                    cond[-1] = not cond[-1]
                elif op == 0x68:
                    if not cond: raise Bad('endif')
                    cond.pop()
                elif live:
                    if op == 0xab: sigs and sigs.separator(start + 1)
                    else: step(op, st, alt, count, sigs)
            if len(st) + len(alt) > 1000: raise Bad('stack size')
        if cond: raise Bad('unterminated conditional')
        if not good: raise Bad('malformed')
    except Bad as b:
        MSG['why'] = b.args[0]
        return None
    return st

def compare(env, script, stack, sigs=None, flags=()):
    """evaluate with the library and with the reference"""
    E = env.mod('bitcoin.core.scripteval'); S = env.mod('bitcoin.core.script')
    st = list(stack)
    want = run(env, script, stack, sigs)
    tx, i = (None, 0) if sigs is None else (sigs.tx, sigs.i)
    r = env.call(E.EvalScript, st, S.CScript(script), tx, i, flags)
    env.check(r.ok or r.raised(E.EvalScriptError), 'no other error')
    env.check(r.ok == (want is not None), 'fails exactly when the rules say so')
    if r.ok:
        env.check(len(st) == len(want), 'stack size')
        env.check(all([isinstance(x, bytes) for x in st]) and env.land(*[env.eq(bytes(a), bytes(b)) for a, b in zip(st, want)]), 'stack')
    return r, want
