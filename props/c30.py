"""C30 script numbers"""
from props import _script
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core._bignum', 'bitcoin.core.scripteval']
BOUNDS = 'integers of up to 80 bits (thorough 136) and byte strings of up to 8 bytes (thorough 16), all values; operands of script arithmetic of up to 6 bytes'

def enc(env, lo, hi):
    B = env.mod('bitcoin.core._bignum')
    n = env.int('n', lo, hi)
    b = env.call(B.bn2vch, n)
    env.check(b.ok and isinstance(b.value, bytes), 'encodes')
    b = b.value
    want = _script.num(n)
    env.check(env.eq(b, want), 'the Bitcoin encoding')
    env.check(env.eq(B.vch2bn(b), n), 'round trip')
    if len(b): env.check(env.lnot(env.land(b[-1] & 0x7f == 0, env.lor(len(b) == 1, b[-2] & 0x80 == 0) if len(b) > 1 else True)), 'minimal')
    env.check(env.eq(B.mpi2bn(B.bn2mpi(n)), n), 'mpi round trip')
    env.check(env.eq(bytes(B.bn2mpi(n)), len(b).to_bytes(4, 'big') + bytes(reversed(b))), 'mpi form')
    env.reach('%d bytes' % len(b))

def dec(env, n, ba):
    B = env.mod('bitcoin.core._bignum')
    b = env.bytes('b', n)
    v = env.call(B.vch2bn, bytearray(b) if ba else b)
    env.check(v.ok and env.eq(v.value, _script.unnum(b)), 'the Bitcoin decoding')
    env.reach('negative' if v.value < 0 else 'zero' if v.value == 0 else 'positive')

def mpi(env, n):
    B = env.mod('bitcoin.core._bignum')
    b = env.bytes('b', n)
    v = env.call(B.mpi2bn, b)
    env.check(v.ok, 'no error')
    if n >= 4 and b[0] == 0 and b[1] == 0 and b[2] == 0 and b[3] == n - 4: env.check(env.eq(v.value, _script.unnum(bytes(reversed(b[4:])))), 'value'); env.reach('value')
    else: env.check(v.value is None, 'no value for a wrong length'); env.reach('none')

def operand(env, n):
    "the operands of script arithmetic: at most 4 bytes"
    E = env.mod('bitcoin.core.scripteval')
    b = env.bytes('b', n)
    def err(cls, *a): raise cls('x', *a, stack=[], scriptIn=None, txTo=None, inIdx=0, flags=())
    r = env.call(E._CastToBigNum, b, lambda cls, *a: err(E.EvalScriptError))
    if n <= 4: env.check(r.ok and env.eq(r.value, _script.unnum(b)), 'value')
    else: env.check(r.raised(E.EvalScriptError), 'too long')
    env.reach('done')

def pieces(env, n):
    B = env.mod('bitcoin.core._bignum')
    b = env.bytes('b', n)
    v = B.bin2bn(b)
    env.check(env.eq(v, int.from_bytes(b, 'big')), 'bin2bn')
    w = B.bn2bin(v)
    env.check(len(w) == (v.bit_length() + 7) // 8 and env.eq(B.bin2bn(w), v), 'bn2bin')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for k in range(0, 17 if T else 10):
        for sg in (1, -1):
            lo, hi = 1 << (8 * k) if k else 0, (1 << (8 * k + 8)) - 1
            if sg < 0: lo, hi = -hi, -lo
            cs.append(dict(name='enc_%d_%d' % (k, sg), fn='enc', args=dict(lo=lo, hi=hi), reach=['%d bytes' % (k + 1), '%d bytes' % (k + 2)], weight=k))
    for n in range(0, 17 if T else 9):
        for ba in (False, True): cs.append(dict(name='dec_%d_%d' % (n, ba), fn='dec', args=dict(n=n, ba=ba), reach=['zero'] + (['negative', 'positive'] if n else []), weight=n))
        cs.append(dict(name='pieces_%d' % n, fn='pieces', args=dict(n=n), reach=['done'], weight=n))
    for n in range(0, 13 if T else 9): cs.append(dict(name='mpi_%d' % n, fn='mpi', args=dict(n=n), reach=['none'] + (['value'] if n >= 4 else []), weight=n))
    for n in range(0, 7): cs.append(dict(name='operand_%d' % n, fn='operand', args=dict(n=n), reach=['done']))
    return cs
