"""C31 script opcodes"""
from props import _eval, _script
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core._bignum', 'bitcoin.core.scripteval']
BOUNDS = 'all opcodes 0x4f..0xff; stacks of 0..7 elements with symbolic contents; numeric operands of every length 0..5 (all values); conditional programs of up to 4 (thorough 5) operations over symbolic stacks; programs of two (thorough three) operations over a mixed set; signature opcodes in C36'
ASSUMPTIONS = ['SHA-256, SHA-1 and RIPEMD-160 are ideal injective functions']
SIGOPS = (0xac, 0xad, 0xae, 0xaf)
ARITY = {0x69: 1, 0x6b: 1, 0x6c: 0, 0x6d: 2, 0x6e: 2, 0x6f: 3, 0x70: 4, 0x71: 6, 0x72: 4, 0x73: 1, 0x74: 0, 0x75: 1, 0x76: 1, 0x77: 2, 0x78: 2, 0x79: 2, 0x7a: 2, 0x7b: 3, 0x7c: 2, 0x7d: 2, 0x82: 1, 0x87: 2, 0x88: 2, 0xa5: 3}
for o in (0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa): ARITY[o] = 1
for o in (0x93, 0x94) + tuple(range(0x9a, 0xa5)): ARITY[o] = 2
NUM1 = (0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92)
NUM2 = (0x93, 0x94) + tuple(range(0x9a, 0xa5))

def single(env, op, lens):
    st = [env.bytes('s%d' % j, n) for j, n in enumerate(lens)]
    r, want = _eval.compare(env, bytes([op]), st)
    env.reach('ok' if r.ok else 'fails')

def pick(env, op, depth, n):
    st = [env.bytes('s%d' % j, 2) for j in range(depth)] + [env.bytes('n', n)]
    r, want = _eval.compare(env, bytes([op]), st)
    env.reach('ok' if r.ok else 'fails')

def within(env, lens):
    st = [env.bytes('s%d' % j, n) for j, n in enumerate(lens)]
    r, want = _eval.compare(env, b'\xa5', st)
    env.reach('done')

def push(env, n):
    d = env.bytes_except('d', n, list(range(min(n, 4))))
    r, want = _eval.compare(env, _script.push(d), [b'\x05'])
    env.reach('ok' if r.ok else 'fails')

def program(env, alphabet, n, lens, first=None):
    """all programs of n operations over the alphabet, on a stack of symbolic elements"""
    prog = b''
    for k in range(n):
        o = alphabet[env.choice('o%d' % k, len(alphabet))] if k or first is None else first
        prog = prog + (bytes([o]) if o > 0x4e else bytes([o]) + env.bytes('d%d' % k, o))
    st = [env.bytes('s%d' % j, m) for j, m in enumerate(lens)]
    r, want = _eval.compare(env, prog, st)
    env.reach('ok' if r.ok else 'fails')

def nested(env, shape):
    """conditional programs with symbolic conditions; every branch leaves its own mark"""
    prog = b''; k = 0
    for c in shape:
        prog = prog + {'I': b'\x63', 'N': b'\x64', 'E': b'\x67', 'F': b'\x68', 'C': b'\x7e', 'R': b'\x6a', 'V': b'\x65', 'W': b'\x66', 'X': b'\x50', 'Z': b'\xba', 'M': bytes([0x52 + k % 14])}.get(c, b'')
        if c == 'P': prog = prog + b'\x01' + env.bytes('p%d' % k, 1)
        if c == 'Q': prog = prog + b'\x02' + env.bytes('p%d' % k, 2)
        k += 1
    r, want = _eval.compare(env, prog, [env.bytes('s0', 1), env.bytes('s1', 1)])
    env.reach('ok' if r.ok else 'fails')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for op in range(0x4f, 0x100):
        if op in SIGOPS: continue
        k = ARITY.get(op, 0)
        always = op in _eval.DISABLED or op in (0x50, 0x62, 0x6a, 0x89, 0x8a, 0x63, 0x64, 0x67, 0x68, 0x6c) or op >= 0xba
        for d in range(0, k + 2):
            need = [] if op in NUM1 + NUM2 + (0x69, 0x79, 0x7a, 0x88, 0xa5) else ['fails'] if always or d < k else ['ok']
            cs.append(dict(name='op_%02x_depth%d' % (op, d), fn='single', args=dict(op=op, lens=[1 + j % 2 for j in range(d)]), reach=need))
        if op in NUM1 or op in (0x69, 0x73, 0x74, 0x82, 0x76, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa):
            for n in range(0, 6): cs.append(dict(name='op_%02x_len%d' % (op, n), fn='single', args=dict(op=op, lens=[1, n]), reach=['fails'] if op in NUM1 and n == 5 else ['ok'] if not (op == 0x69 and n == 0) else ['fails']))
        if op in NUM2 or op in (0x87, 0x88):
            L = range(0, 6) if T else (0, 1, 2, 4, 5)
            for n in L:
                for m in L:
                    if not T and (n == 2 and m == 4 or n == 4 and m == 2): continue
                    cs.append(dict(name='op_%02x_len%d_%d' % (op, n, m), fn='single', args=dict(op=op, lens=[3, n, m]), reach=['fails'] if op in NUM2 and 5 in (n, m) else [], weight=n + m))
    for op in (0x79, 0x7a):
        for d in (1, 2, 3, 5) + ((7, 9) if T else ()):
            for n in range(0, 6): cs.append(dict(name='index_%02x_%d_%d' % (op, d, n), fn='pick', args=dict(op=op, depth=d, n=n), reach=['fails'] if n == 5 else ['ok', 'fails'] if n else ['ok']))
    L = range(0, 6) if T else (0, 1, 4, 5)
    for a in L:
        for b in L:
            for c in L:
                if not T and (a, b, c).count(4) + (a, b, c).count(1) == 3 and (a, b, c) not in ((1, 1, 1), (4, 4, 4), (1, 4, 1)): continue
                cs.append(dict(name='within_%d%d%d' % (a, b, c), fn='within', args=dict(lens=[a, b, c]), reach=['done'], weight=a + b + c))
    for n in (0, 1, 75, 76, 255, 256, 519, 520, 521): cs.append(dict(name='push_%d' % n, fn='push', args=dict(n=n), reach=['ok' if n < 521 else 'fails']))
    COND = [0x63, 0x64, 0x67, 0x68, 0x52, 1, 0x7e, 0x6a]
    for n in range(1, 6 if T else 5):
        if n < 4: cs.append(dict(name='cond_%d' % n, fn='program', args=dict(alphabet=COND, n=n, lens=[1, 1]), reach=['ok', 'fails'], weight=3 ** n, opts=dict(max_paths=10**6, case_s=3000)))
        else:
            for f in COND: cs.append(dict(name='cond_%d_%02x' % (n, f), fn='program', args=dict(alphabet=COND, n=n, lens=[1, 1], first=f), reach=['fails'] + (['ok'] if f not in (0x67, 0x68, 0x7e, 0x6a) else []), weight=3 ** n, opts=dict(max_paths=10**6, case_s=3000)))
    for s in ['PIMEMEMF', 'PNMEMF', 'PIPIMEMFEPNMEMFFM', 'PIPIPIMFFF', 'PIPIMEMEMFEMF', 'PICF', 'PINF', 'PIEF', 'PIVF', 'PIWF', 'PIRF', 'PIXF', 'PIZF', 'PIIIFFF', 'PIIIEMFEMFEMF', 'QIMEMF', 'QNMEMF', 'PIMECF', 'PIREMF', 'PIMERF', 'PIXEMF', 'PIZEMF', 'IMEMFIMEMF', 'INMEMFEMF', 'PIME', 'PIFF', 'PIFE']:
        cs.append(dict(name='nest_' + s, fn='nested', args=dict(shape=s), reach=['fails'] if any(x in s for x in 'CVW') or s in ('PINF', 'PIME', 'PIFF', 'PIFE') else ['ok'], weight=3))
    MIX = [0x6b, 0x6c, 0x6d, 0x6e, 0x72, 0x73, 0x74, 0x76, 0x77, 0x79, 0x7b, 0x7c, 0x7d, 0x82, 0x87, 0x8b, 0x8f, 0x91, 0x93, 0x9c, 0xa3, 0xa9, 0x61, 0x69, 0x51, 1]
    cs.append(dict(name='mix_2', fn='program', args=dict(alphabet=MIX, n=2, lens=[1, 1, 1, 1]), reach=['ok', 'fails'], weight=30, opts=dict(max_paths=10**6, case_s=3000)))
    if T:
        for f in MIX: cs.append(dict(name='mix_3_%02x' % f, fn='program', args=dict(alphabet=MIX, n=3, lens=[1, 1, 1, 1], first=f), reach=['ok', 'fails'], weight=30, opts=dict(max_paths=10**6, case_s=3000)))
        cs.append(dict(name='all_2', fn='program', args=dict(alphabet=[1] + [o for o in range(0x4f, 0x100) if o not in SIGOPS], n=2, lens=[1, 1, 1, 1]), reach=['ok', 'fails'], weight=60, opts=dict(max_paths=10**6, case_s=3000)))
    ALT = [0x6b, 0x6c, 0x75, 0x74, 0x52, 0x93]
    for n in range(1, 6 if T else 4): cs.append(dict(name='alt_%d' % n, fn='program', args=dict(alphabet=ALT, n=n, lens=[1, 1]), reach=['ok', 'fails'], weight=2 ** n, opts=dict(max_paths=10**6, case_s=3000)))
    return cs
