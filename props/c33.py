"""C33 script evaluation only fails with its own error"""
from props import _eval, _script, _tx, _sig
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core._bignum', 'bitcoin.core.scripteval', 'bitcoin.core.key']
BOUNDS = 'every one-byte script and every opcode followed by a malformed push, on stacks of 0..6 symbolic elements of 0..5 bytes; every two-byte script (thorough: three) over an alphabet with one opcode of each kind, all data bytes; signature operations with symbolic counts, keys and signatures; input indices inside and outside the transaction'
ASSUMPTIONS = ['SHA-256, SHA-1 and RIPEMD-160 are ideal injective functions', 'the verdict of the elliptic-curve library is an arbitrary predicate of key, digest and signature (its native code is not encoded)']

def evaluate(env, script, stack, t, i, flags):
    E = env.mod('bitcoin.core.scripteval'); S = env.mod('bitcoin.core.script'); C = env.mod('bitcoin.core')
    s = S.CScript(script); st = list(stack)
    r = env.call(E.EvalScript, st, s, t, i, flags)
    env.check(r.ok or r.raised(E.EvalScriptError), 'only the evaluation error')
    if not r.ok:
        env.check(r.raised(C.ValidationError), 'a validation error')
        x = r.exc
        env.check(x.scriptIn is s and x.txTo is t and x.inIdx == i and x.flags is flags and x.stack is st, 'the error says what was evaluated')
        ops, part, good = _script.parse(script)
        if x.sop is not None:
            hit = [o for o in ops if o[2] == x.sop_pc]
            env.check(len(hit) == 1 and env.eq(hit[0][0], x.sop) and (x.sop_data is None if hit[0][1] is None else env.eq(x.sop_data, hit[0][1])), 'the operation that failed')
        else: env.check(len(script) > 10000 or not good or bool(ops), 'an operation failed')
    env.check(env.eq(bytes(s), script), 'the script is not changed')
    env.reach('ok' if r.ok else 'fails')

def one(env, lens, tail, i):
    "any opcode (or push) on a stack of elements of these lengths"
    _sig.patch(env)
    st = [env.bytes('s%d' % j, n) for j, n in enumerate(lens)]
    op = env.choice('op', 256)
    b = bytes([op]) + {'none': b'', 'cut': b'\x02\x01', 'nolen': b'\x4d\x01'}[tail]
    evaluate(env, b, st, _sig.tx(env), i, ())

KINDS = [0, 1, 2, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x61, 0x63, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x74, 0x79, 0x7a, 0x7d, 0x7e, 0x82, 0x87, 0x88, 0x8b, 0x93, 0x9d, 0xa5, 0xa9, 0xab, 0xac, 0xad, 0xae, 0xaf, 0xb0, 0xff]
def raw(env, n, lens, first=None):
    "byte strings: operations of every kind, data bytes arbitrary"
    _sig.patch(env)
    b = b''; data = 0; ended = False
    for k in range(n):
        if data: b = b + env.bytes('x%d' % k, 1); data -= 1; continue
        o = KINDS[env.choice('o%d' % k, len(KINDS))] if k or first is None else first
        b = b + bytes([o])
        if o < 0x4c: data = o
        elif o < 0x4f: data = n     # length and data are arbitrary
    st = [env.bytes('s%d' % j, m) for j, m in enumerate(lens)]
    evaluate(env, b, st, _sig.tx(env), 0, ())

def conditional(env, tail):
    "inside conditionals with symbolic conditions"
    _sig.patch(env)
    st = [env.bytes('s%d' % j, 1) for j in range(3)]
    b = bytes([env.int('if', 0x63, 0x64)]) + bytes([KINDS[env.choice('o', len(KINDS))]]) + [b'\x68', b'\x67\x51\x68', b'', b'\x67\xae\x68'][tail]
    evaluate(env, b, st, _sig.tx(env), 0, ())

def multisig(env, depth, ns, ms):
    "counts of any value and length, too few elements"
    _sig.patch(env)
    op = [0xae, 0xaf][env.choice('op', 2)]
    st = [env.bytes('s%d' % j, 1) for j in range(depth)]
    if ms is not None: st = st[:max(0, depth - 1)] + [env.bytes('m', ms)] + st[max(0, depth - 1):]
    st.append(env.bytes('n', ns))
    evaluate(env, bytes([op]), st, _sig.tx(env), 0, ())

def checksig(env, sl, pl, i, nout):
    _sig.patch(env)
    st = [env.bytes('sig', sl), env.bytes('pub', pl)]
    evaluate(env, bytes([env.int('op', 0xac, 0xad)]) + b'\xab\x51', st, _sig.tx(env, 2, nout), i, ())

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for lens in ([], [0], [1], [0, 1], [2, 1], [1, 1, 1], [1, 2, 0], [1, 1, 1, 1], [5, 5], [2, 3], [1, 1, 1, 1, 1, 1]) + (([3, 3], [4, 4, 4], [1, 2, 3, 4, 5], [2, 2, 2, 2]) if T else ()):
        for t in ('none', 'cut', 'nolen'):
            for i in (0, 5) if t == 'none' else (0,):
                if not T and sum(lens) > 6 and (i or t != 'none'): continue
                cs.append(dict(name='one_%s_%s_%d' % ('_'.join(map(str, lens)), t, i), fn='one', args=dict(lens=lens, tail=t, i=i), reach=['fails'] + (['ok'] if t == 'none' else []), weight=1 + len(lens), opts=dict(case_s=3000, max_paths=10**6)))
    for lens in ([], [1, 1], [0, 2], [1, 1, 1]):
        cs.append(dict(name='raw_1_%d' % len(lens), fn='raw', args=dict(n=1, lens=lens), reach=['ok', 'fails']))
        if T or len(lens) < 3: cs.append(dict(name='raw_2_%s' % '_'.join(map(str, lens)), fn='raw', args=dict(n=2, lens=lens), reach=['ok', 'fails'], weight=10, opts=dict(case_s=3000, max_paths=10**6)))
    for f in KINDS if T else (0x4c, 0x4d, 0x4e, 1, 0x63): cs.append(dict(name='raw_3_%02x' % f, fn='raw', args=dict(n=3, lens=[1, 1], first=f), reach=['fails'], weight=10, opts=dict(case_s=3000, max_paths=10**6)))
    for t in range(4): cs.append(dict(name='cond_%d' % t, fn='conditional', args=dict(tail=t), reach=['fails'] + (['ok'] if t != 2 else []), weight=4))
    for d in range(0, 6 if T else 4):
        for ns in range(0, 6):
            for ms in (None, 0, 1, 5) + ((2, 4) if T else ()): cs.append(dict(name='msig_%d_%d_%s' % (d, ns, ms), fn='multisig', args=dict(depth=d, ns=ns, ms=ms), reach=['fails'] if ns == 5 else [], weight=2))
    for sl in (0, 1, 2, 9):
        for pl in (0, 1, 33):
            for i in (0, 1, 2, 3):
                for no in (0, 1, 2): cs.append(dict(name='sig_%d_%d_%d_%d' % (sl, pl, i, no), fn='checksig', args=dict(sl=sl, pl=pl, i=i, nout=no), reach=['ok'] if sl else []))
    return cs
