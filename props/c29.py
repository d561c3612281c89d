"""C29 classification of scripts and signature operation counts"""
from props import _script, _tx
PRELOAD = ['bitcoin.core', 'bitcoin.core.script']
BOUNDS = 'every byte string of up to 3 bytes (thorough 5); 22..24 arbitrary bytes for pay-to-script-hash; every push form with lengths 0..80, 254..257 and 65535/65536 and symbolic contents for canonical pushes; up to 3 operations (thorough 4) over the signature opcodes with symbolic neighbours for the counts; redeem scripts of 0..3, 519..522 bytes'
ASSUMPTIONS = ['SHA-256 and RIPEMD-160 are ideal injective functions (to_p2sh_scriptPubKey)']

def ref(env, b):
    "(push only, canonical, valid, simple count, accurate count) over the reference parse"
    ops, part, good = _script.parse(b)
    push_only = good; canon = good; n0 = n1 = 0; last = 0xff
    for op, data, start in ops:
        if op > 0x60: push_only = False
        if data is not None:
            m = len(data)
            if op == 0x4c: short = m < 0x4c
            elif op == 0x4d: short = m <= 0xff
            elif op == 0x4e: short = m <= 0xffff
            else: short = m == 1 and data[0] <= 16
            canon = env.land(canon, env.lnot(short))
        if op == 0xac or op == 0xad: n0 += 1; n1 += 1
        if op == 0xae or op == 0xaf:
            n0 += 20
            n1 += env.ite(env.land(last >= 0x51, last <= 0x60), last - 0x50, 20)
        last = op
    return push_only, canon, good, n0, n1

def same(env, S, b, tags=True):
    s = S.CScript(b)
    push_only, canon, good, n0, n1 = ref(env, b)
    p = [env.call(f) for f in (s.is_push_only, s.has_canonical_pushes, s.is_unspendable, s.is_valid, s.is_p2sh)] + [env.call(s.GetSigOpCount, False), env.call(s.GetSigOpCount, True)]
    env.check(all([r.ok for r in p]), 'nothing is raised')
    env.check(env.iff(p[0].value, push_only), 'push only')
    env.check(env.iff(p[1].value, canon), 'canonical pushes')
    env.check(env.iff(p[2].value, env.land(len(b) > 0, b[0] == 0x6a) if len(b) else False), 'unspendable')
    env.check(env.iff(p[3].value, good), 'valid')
    env.check(env.iff(p[4].value, env.land(len(b) == 23, b[0] == 0xa9, b[1] == 20, b[22] == 0x87) if len(b) == 23 else False), 'pay to script hash')
    env.check(env.eq(p[5].value, n0) and env.eq(p[6].value, n1), 'signature operations')
    env.reach('good' if good else 'malformed')

ALPHABET = [0, 1, 2, 3, 0x4c, 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x60, 0x61, 0x6a, 0xac, 0xaf, 0xff]
def raw(env, n, full):
    "(validity concretises opcodes: for longer strings every class of opcode is represented)"
    b = env.bytes('b', n)
    if not full: env.assume(env.land(*[env.lor(*[x == a for a in ALPHABET]) for x in b]))
    same(env, env.mod('bitcoin.core.script'), b)

def novalid(env, n):
    "every byte string, all tests but is_valid"
    S = env.mod('bitcoin.core.script')
    env.patch(S.CScript, 'is_valid', lambda self: _script.parse(bytes(self))[2])
    same(env, S, env.bytes('b', n))

def p2sh(env, n):
    S = env.mod('bitcoin.core.script')
    b = env.bytes('b', n)
    r = env.call(S.CScript(b).is_p2sh)
    env.check(r.ok and env.iff(r.value, env.land(b[0] == 0xa9, b[1] == 20, b[22] == 0x87) if n == 23 else False), 'form')
    env.reach('yes' if r.value else 'no')

def push(env, form, n):
    S = env.mod('bitcoin.core.script')
    d = env.bytes('d', n) if n <= 300 else env.bytes_except('d', n, [0, n - 1])
    pre = [bytes([n]) if n < 0x4c else None, b'\x4c' + bytes([n]) if n < 256 else None, b'\x4d' + _tx.le(n, 2) if n < 65536 else None, b'\x4e' + _tx.le(n, 4)][form]
    if env.choice('tail', 2): t = b'\xac'
    else: t = b''
    same(env, S, pre + d + t)

def counts(env, n, tail):
    "sequences of signature operations and other operations, and a malformed tail"
    S = env.mod('bitcoin.core.script')
    b = b''
    for k in range(n):
        c = env.choice('c%d' % k, 3)
        if c == 0: b = b + bytes([env.int('s%d' % k, 0xac, 0xaf)])
        elif c == 1: b = b + bytes([env.int('s%d' % k, 0x4f, 0x62)])
        else: b = b + b'\x01' + env.bytes('s%d' % k, 1)
    if tail: b = b + [b'\x4c', b'\x02\xac', b'\x4d\xac', b'\x4e\xae\xae\xae', b'\x4e\x01\x00\x00\x00', b'\x4d\x02\x00\xac'][env.choice('tail', 6)]
    env.patch(S.CScript, 'is_valid', lambda self: _script.parse(bytes(self))[2])
    same(env, S, b)

def redeem(env, n, check):
    S = env.mod('bitcoin.core.script')
    b = env.bytes_except('b', n, list(range(min(n, 3))))
    s = S.CScript(b)
    r = env.call(s.to_p2sh_scriptPubKey, check) if check is not None else env.call(s.to_p2sh_scriptPubKey)
    if check is False or n <= 520:
        env.check(r.ok and isinstance(r.value, S.CScript) and r.value.is_p2sh(), 'recognised')
        env.check(env.eq(bytes(r.value), b'\xa9\x14' + _tx.hash160(b) + b'\x87'), 'contains the hash')
    else: env.check(r.raised(ValueError), 'too large to spend')
    env.check(env.eq(bytes(s), b), 'unchanged')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in (0, 1): cs.append(dict(name='raw_%d' % n, fn='raw', args=dict(n=n, full=True), reach=['good'] + (['malformed'] if n else [])))
    for n in range(2, 5 if T else 4): cs.append(dict(name='raw_%d' % n, fn='raw', args=dict(n=n, full=False), reach=['good', 'malformed'], weight=3 * n, opts=dict(max_paths=10**6, case_s=3000)))
    for n in range(2, 6 if T else 4): cs.append(dict(name='all_%d' % n, fn='novalid', args=dict(n=n), reach=['good', 'malformed'], weight=3 * n, opts=dict(max_paths=10**6, case_s=3000)))
    for n in range(20, 27): cs.append(dict(name='p2sh_%d' % n, fn='p2sh', args=dict(n=n), reach=['no'] + (['yes'] if n == 23 else [])))
    for form in range(4):
        for n in (list(range(0, 81)) if T else [0, 1, 2, 16, 17, 74, 75, 76, 77, 80]) + [254, 255, 256, 257, 65534, 65535, 65536]:
            if n > [75, 255, 65535, 1 << 32][form]: continue
            cs.append(dict(name='push_%d_%d' % (form, n), fn='push', args=dict(form=form, n=n), reach=['good'], weight=1 + n // 10000))
    for n in range(1, 5 if T else 4):
        for t in (0, 1): cs.append(dict(name='counts_%d_%d' % (n, t), fn='counts', args=dict(n=n, tail=t), reach=['malformed' if t else 'good'], weight=2 * n, opts=dict(max_paths=10**6, case_s=3000)))
    for n in (0, 1, 2, 3, 519, 520, 521, 522):
        for c in (None, True, False): cs.append(dict(name='redeem_%d_%s' % (n, c), fn='redeem', args=dict(n=n, check=c), reach=['done']))
    return cs
