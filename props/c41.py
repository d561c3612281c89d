"""C41 amounts and hex text"""
PRELOAD = ['bitcoin.core']
BOUNDS = 'all amounts from 0 to 21e14 (thorough: to 2^63) by number of whole-coin digits; byte strings of 0..40 bytes (thorough 0..80) and hex text (upper case up to 3 bytes); every single character in hex text of 2 or 4 characters; every 64-bit signed amount for the range test'
COIN = 10 ** 8

def money(env, lo, hi):
    C = env.mod('bitcoin.core')
    v = env.int('v', lo, hi, kind='int')
    r = env.call(C.str_money_value, v)
    env.check(r.ok, 'formats')
    s = r.value
    env.check('.' in s, 'a decimal point')
    w, f = s.split('.')
    env.check(1 <= len(f) <= 8 and len(w) >= 1, 'one to eight decimals')
    n = 0
    for c in w + f: 
        env.check('0' <= c <= '9', 'digits'); n = n * 10 + (ord(c) - 48)
    env.check(env.eq(n * 10 ** (8 - len(f)), v), 'the exact amount')
    env.check(len(f) == 1 or f[-1] != '0', 'no superfluous zeros at the end')
    env.check(len(w) == 1 or w[0] != '0', 'nor at the start')
    env.reach('decimals %d' % len(f))

def range_(env):
    C = env.mod('bitcoin.core')
    v = env.int('v', -2**63, 2**63 - 1)
    r = env.call(C.MoneyRange, v)
    env.check(r.ok and env.iff(r.value, env.land(v >= 0, v <= 21 * 10**14)), 'exactly from zero to 21 million coins')
    env.check(C.COIN == COIN and C.MAX_MONEY == 21 * 10**14, 'constants')
    env.reach('done')

def hexes(env, n):
    C = env.mod('bitcoin.core')
    b = env.bytes('b', n)
    s = env.call(C.b2x, b); t = env.call(C.b2lx, b)
    env.check(s.ok and t.ok and isinstance(s.value, str) and isinstance(t.value, str) and len(s.value) == len(t.value) == 2 * n, 'text')
    D = '0123456789abcdef'
    want = ''.join([D[c >> 4] + D[c & 15] for c in b])
    env.check(s.value == want, 'hex digits')
    env.check(t.value == ''.join([D[c >> 4] + D[c & 15] for c in b[::-1]]), 'reversed bytes')
    for f, q in ((C.x, s.value), (C.lx, t.value), (C.x, s.value.upper() if n <= 3 else s.value)):
        r = env.call(f, q)
        env.check(r.ok and env.eq(r.value, b), 'back')
    env.check(env.eq(C.lx(s.value), b[::-1]) and env.eq(C.x(t.value), b[::-1]), 'the two orders are reverses')
    env.reach('done')

def parse(env, n, k):
    """one arbitrary character"""
    C = env.mod('bitcoin.core')
    c = env.text('c', 1)
    s = '1a' * (n // 2)
    s = s[:k] + c + s[k + 1:]
    good = False; v = 0
    for j, d in enumerate('0123456789abcdefABCDEF'):
        if c == d: good = True; v = j if j < 16 else j - 6
    r = env.call(C.x, s); q = env.call(C.lx, s)
    env.check(r.ok == good and q.ok == good and (good or r.raised(ValueError) and q.raised(ValueError)), 'refused exactly when not hex')
    if good:
        w = [0x1a] * (n // 2); w[k // 2] = (w[k // 2] & 0xf) | (v << 4) if k % 2 == 0 else (w[k // 2] & 0xf0) | v
        env.check(env.eq(r.value, bytes(w)) and env.eq(q.value, bytes(w[::-1])), 'value')
    env.check(env.call(C.x, s + '0').raised(ValueError) and env.call(C.lx, s + '0').raised(ValueError), 'odd length')
    env.reach('good' if good else 'bad')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    top = 2 ** 63 - 1 if T else 21 * 10**14
    lo = 0
    for k in range(12):
        hi = min(10 ** k * 10 * COIN - 1, top)
        if lo > hi: break
        cs.append(dict(name='money_%d' % k, fn='money', args=dict(lo=lo, hi=hi), reach=['decimals %d' % j for j in range(1, 9)], weight=5))
        lo = hi + 1
    cs.append(dict(name='range', fn='range_', args={}, reach=['done']))
    for n in range(81 if T else 41): cs.append(dict(name='hex_%d' % n, fn='hexes', args=dict(n=n), reach=['done']))
    for n in (2, 4):
        for k in range(n): cs.append(dict(name='parse_%d_%d' % (n, k), fn='parse', args=dict(n=n, k=k), reach=['good', 'bad']))
    return cs
