"""C28 building and parsing scripts"""
from props import _script, _tx
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core._bignum']
BOUNDS = 'single pushes of every length 0..80, 250..260, 65533..65540 (thorough: also 1..300, 16777216) with symbolic contents (large ones partly); sequences of up to 3 elements (thorough 4) out of byte strings, integers within +-2^40 and opcodes; every byte string of up to 5 bytes (thorough 7) as a raw script (cooked iteration: every one-byte script and scripts of 3 (thorough 4) bytes over an alphabet with every kind of opcode), and every one-push script with a symbolic length field of 1, 2 and 4 bytes over up to 300 bytes of data'
INTS = (-2**40, 2**40)

def push(env, n):
    S = env.mod('bitcoin.core.script')
    d = env.bytes('d', n) if n <= 300 else env.bytes_except('d', n, [0, 1, n // 2, n - 1])
    want = _script.push(d)
    env.check(env.eq(S.CScriptOp.encode_op_pushdata(d), want), 'push form')
    env.check(env.eq(bytes(S.CScript([d])), want) and env.eq(bytes(S.CScript([bytearray(d)])), want) and env.eq(bytes(S.CScript() + d), want), 'as an element')
    s = S.CScript([S.OP_DUP, d, S.OP_EQUAL])
    r = list(s.raw_iter())
    k = len(want) - n
    env.check(len(r) == 3 and env.eq(r[0][0], 0x76) and r[0][1] is None and r[0][2] == 0 and env.eq(r[2][0], 0x87) and r[2][2] == 1 + len(want), 'neighbours')
    env.check(len(r) == 3 and env.eq(r[1][0], want[0]) and env.eq(r[1][1], d) and r[1][2] == 1, 'raw parse')
    c = list(s)
    env.check(len(c) == 3 and c[0] == 0x76 and isinstance(c[0], S.CScriptOp) and env.eq(c[1], d), 'parse')
    t = env.call(list, S.CScript(want[:-1]).raw_iter()) if n else None
    if n: env.check(t.raised(S.CScriptTruncatedPushDataError) and env.eq(t.exc.data, d[:-1]), 'truncated push, with the data that is there')
    env.reach('done')

def too_long(env):
    S = env.mod('bitcoin.core.script')
    class Long(bytes):
        def __len__(self): return n
    n = 0x100000000 + env.int('n', 0, 300)
    r = env.call(S.CScriptOp.encode_op_pushdata, Long(b''))
    env.check(r.raised(ValueError), 'refused')
    env.reach('done')

def element(env, S, kind, p):
    """(element, its bytes in the script, what iteration gives back)"""
    if kind[0] == 'b':
        d = env.bytes(p, int(kind[1:]))
        return d, _script.push(d), d
    if kind in 'ij':
        n = env.int(p, *(INTS if kind == 'i' else (-300, 300)))
        if n == 0: return n, b'\x00', b''
        if env.land(n >= 1, n <= 16): return n, bytes([0x50 + n]), n
        if n == -1: return n, b'\x4f', n
        d = _script.num(n)
        return n, _script.push(d), d
    ops = {'o': [0] + list(range(0x4f, 0x100)), 'q': [0, 0x4f, 0x50, 0x51, 0x60, 0x61, 0xff]}[kind]
    o = ops[env.choice(p, len(ops))]
    return S.CScriptOp(o), bytes([o]), (b'' if o == 0 else o - 0x50 if 0x51 <= o <= 0x60 else S.CScriptOp(o))

def back(env, S, got, el, want, kind):
    if isinstance(want, bytes): return isinstance(got, bytes) and env.eq(got, want)
    if kind in 'ij' and want == -1: return isinstance(got, S.CScriptOp) and got == 0x4f
    if isinstance(want, S.CScriptOp): return isinstance(got, S.CScriptOp) and int(got) == int(want)
    return not isinstance(got, (bytes, S.CScriptOp)) and env.eq(got, want)

def seq(env, kinds):
    S = env.mod('bitcoin.core.script')
    es = [element(env, S, k, 'e%d' % j) for j, k in enumerate(kinds)]
    raw = b''.join(e[1] for e in es)
    s = S.CScript([e[0] for e in es])
    env.check(isinstance(s, S.CScript) and env.eq(bytes(s), raw), 'bytes')
    env.check(env.eq(bytes(S.CScript(e[0] for e in es)), raw) and env.eq(bytes(S.CScript(tuple(e[0] for e in es))), raw), 'any iterable')
    out = list(s)
    env.check(len(out) == len(es), 'number of elements')
    for g, e, k in zip(out, es, kinds): env.check(back(env, S, g, e[0], e[2], k), 'element comes back')
    # adding behaves like concatenation
    for j in range(len(es)):
        a = S.CScript([e[0] for e in es[:j]])
        t = a + es[j][0]
        env.check(isinstance(t, S.CScript) and env.eq(bytes(t), b''.join(e[1] for e in es[:j + 1])), 'adding an element')
        env.check(env.eq(bytes(a), b''.join(e[1] for e in es[:j])), 'the script added to is not changed')
    # building from the elements that come back gives the same script
    env.check(env.eq(bytes(S.CScript(out)), raw) or any(k[0] in 'ijb' for k in kinds), 'again')
    env.check(env.eq(bytes(S.CScript(raw)), raw) and env.eq(bytes(S.CScript(bytearray(raw))), raw), 'from raw bytes')
    env.reach('done')

def misc(env):
    S = env.mod('bitcoin.core.script')
    a = S.CScript([env.bytes('d', 2)])
    b = S.CScript([env.bytes('e', 3)])
    env.check(env.eq(bytes(a + b), bytes(a) + _script.push(bytes(b))), 'a script added to a script is pushed')
    env.check(env.call(a.join, [b]).raised(NotImplementedError), 'join refused')
    for bad in ('x', None, 1.5): env.check(env.call(lambda: a + bad).raised(TypeError) and env.call(S.CScript, [bad]).raised(TypeError), 'other types refused')
    env.check(len(S.CScript()) == 0 and list(S.CScript()) == [], 'empty')
    env.reach('done')

def small(env):
    S = env.mod('bitcoin.core.script')
    n = env.int('n', -2**33, 2**33)
    r = env.call(S.CScriptOp.encode_op_n, n)
    if r.ok:
        env.check(env.land(n >= 0, n <= 16), 'range')
        env.check(isinstance(r.value, S.CScriptOp) and env.eq(int(r.value), env.ite(n == 0, 0, 0x50 + n)), 'opcode')
        env.check(r.value.is_small_int() and env.eq(r.value.decode_op_n(), n), 'back')
    else: env.check(r.raised(ValueError) and env.lor(n < 0, n > 16), 'refused')
    env.reach('ok' if r.ok else 'refused')

def op(env):
    S = env.mod('bitcoin.core.script')
    n = env.choice('n', 256)
    o = S.CScriptOp(n)
    env.check(isinstance(o, S.CScriptOp) and int(o) == n and o is S.CScriptOp(n), 'opcode')
    is_n = n == 0 or 0x51 <= n <= 0x60
    env.check(o.is_small_int() == is_n, 'small')
    r = env.call(o.decode_op_n)
    env.check((r.ok and r.value == (n - 0x50 if n else 0)) if is_n else r.raised(ValueError), 'decode')
    env.reach('done')

def check_raw(env, S, b, cooked):
    s = S.CScript(b)
    ops, part, good = _script.parse(b)
    got = []; exc = None
    it = s.raw_iter()
    while True:
        r = env.call(next, it)
        if not r.ok: exc = r; break
        got.append(r.value)
    env.check(len(got) == len(ops), 'number of operations')
    for g, w in zip(got, ops):
        env.check(env.eq(g[0], w[0]) and env.eq(g[2], w[2]), 'operation and position')
        env.check(g[1] is None if w[1] is None else env.eq(g[1], w[1]), 'data')
    if good: env.check(exc.raised(StopIteration), 'the end')
    else:
        env.check(exc.raised(S.CScriptInvalidError), 'invalid-script error')
        env.check(exc.raised(S.CScriptTruncatedPushDataError) == (part is not None), 'truncated push')
        if part is not None: env.check(env.eq(exc.exc.data, part), 'partial data')
    env.reach('good' if good else 'truncated' if part is not None else 'no length')
    if not cooked: return
    c = env.call(list, s)
    env.check(c.ok == good and (c.ok or c.raised(S.CScriptInvalidError)), 'iteration')
    if c.ok:
        env.check(len(c.value) == len(ops), 'elements')
        for g, w in zip(c.value, ops):
            if w[1] is not None: env.check(isinstance(g, bytes) and env.eq(g, w[1]), 'pushed data')
            else:
                env.check(env.eq(int(g), env.ite(env.land(w[0] >= 0x51, w[0] <= 0x60), w[0] - 0x50, w[0])), 'opcode or small integer')
                env.check(isinstance(g, S.CScriptOp) != (0x51 <= w[0] <= 0x60), 'kind')

def raw(env, n):
    check_raw(env, env.mod('bitcoin.core.script'), env.bytes('b', n), n < 2)

ALPHABET = [0, 1, 2, 3, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61, 0xac, 0xff]
def cooked(env, n):
    "operations out of an alphabet with every kind, any data"
    b = env.bytes('b', n)
    env.assume(env.land(*[env.lor(*[x == a for a in ALPHABET]) for x in b]))
    check_raw(env, env.mod('bitcoin.core.script'), b, True)

def lengths(env, op, k, n):
    """one push with a symbolic length field, over n bytes of data; data beyond the push are one-byte operations"""
    S = env.mod('bitcoin.core.script')
    if k == 0: b = bytes([env.int('op', 1, 75)])
    else: b = bytes([op]) + env.bytes('len', k)
    d = b'\x61' * n
    b = b + d
    m = b[0] if k == 0 else sum([b[1 + j] << (8 * j) for j in range(k)])
    pre = 1 + k
    it = S.CScript(b).raw_iter()
    r = env.call(next, it)
    if m <= n:
        env.check(r.ok and env.eq(r.value[0], b[0]) and r.value[2] == 0, 'first operation')
        env.check(r.ok and env.eq(len(r.value[1]), m) and env.eq(r.value[1], d[:len(r.value[1])]), 'its data')
        q = env.call(next, it)
        if m < n: env.check(q.ok and q.value[0] == 0x61 and q.value[1] is None and env.eq(q.value[2], pre + m), 'the next operation follows directly')
        else: env.check(q.raised(StopIteration), 'the end')
    else: env.check(r.raised(S.CScriptTruncatedPushDataError) and env.eq(r.exc.data, d), 'truncated push, with the data that is there')
    env.reach('in' if r.ok else 'out')

def missing(env, op, k, n):
    S = env.mod('bitcoin.core.script')
    b = bytes([env.int('first', 0x4f, 0xff), op]) + env.bytes('len', n)
    it = S.CScript(b).raw_iter()
    env.check(env.eq(next(it)[0], b[0]), 'the operations before')
    r = env.call(next, it)
    env.check(r.raised(S.CScriptInvalidError) and not r.raised(S.CScriptTruncatedPushDataError), 'missing length')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in sorted(set(list(range(0, 301 if T else 81)) + list(range(250, 261)) + list(range(65533, 65541)))) + ([1 << 24] if T else []): cs.append(dict(name='push_%d' % n, fn='push', args=dict(n=n), reach=['done'], weight=1 + n // 1000))
    cs.append(dict(name='too_long', fn='too_long', args={}, reach=['done']))
    cs.append(dict(name='misc', fn='misc', args={}, reach=['done']))
    cs.append(dict(name='small', fn='small', args={}, reach=['ok', 'refused']))
    cs.append(dict(name='op', fn='op', args={}, reach=['done']))
    A = ['b0', 'b1', 'b3', 'b76', 'i', 'o']
    cs.append(dict(name='seq_empty', fn='seq', args=dict(kinds=[]), reach=['done']))
    for a in A: cs.append(dict(name='seq_%s' % a, fn='seq', args=dict(kinds=[a]), reach=['done']))
    B = ['b0', 'b1', 'j', 'q']
    for a in B:
        for b in B: cs.append(dict(name='seq_%s_%s' % (a, b), fn='seq', args=dict(kinds=[a, b]), reach=['done'], weight=3))
    for k in [['j', 'q', 'b3'], ['q', 'j', 'b2'], ['b1', 'j', 'q'], ['q', 'q', 'q'], ['b76', 'q', 'j']] + ([['q', 'i', 'b2'], ['b1', 'i', 'q'], ['i', 'j'], ['j', 'q', 'j'], ['j', 'j', 'j'], ['q', 'j', 'j', 'q'], ['b1', 'b0', 'i', 'b76'], ['q', 'q', 'q', 'q']] if T else []):
        cs.append(dict(name='seq_' + '_'.join(k), fn='seq', args=dict(kinds=k), reach=['done'], weight=5))
    for n in range(0, 8 if T else 6): cs.append(dict(name='raw_%d' % n, fn='raw', args=dict(n=n), reach=['good'] + (['truncated', 'no length'] if n else []), weight=2 * n, opts=dict(max_paths=10**6, case_s=3000)))
    for n in range(2, 5 if T else 4): cs.append(dict(name='cooked_%d' % n, fn='cooked', args=dict(n=n), reach=['good', 'truncated', 'no length'], weight=3 * n, opts=dict(max_paths=10**6, case_s=3000)))
    for n in (0, 1, 10, 80): cs.append(dict(name='len0_%d' % n, fn='lengths', args=dict(op=0, k=0, n=n), reach=(['in'] if n else []) + (['out'] if n < 75 else [])))
    for op, k in ((0x4c, 1), (0x4d, 2), (0x4e, 4)):
        for n in (0, 1, 10, 254, 255, 256, 300) + ((1000, 4000) if T and k > 1 else ()): cs.append(dict(name='len%d_%d' % (k, n), fn='lengths', args=dict(op=op, k=k, n=n), reach=['in'] + (['out'] if k > 1 or n < 255 else []), weight=2, opts=dict(concretize_cap=5000)))
        for n in range(k): cs.append(dict(name='missing%d_%d' % (k, n), fn='missing', args=dict(op=op, k=k, n=n), reach=['done']))
    return cs
