"""C03 bit strings as immutable sequences"""
PRELOAD = ['proofmarshal.bits']
BOUNDS = 'bit strings of 0..18 bits (thorough 0..34) over storage with up to one surplus byte, every bit symbolic; every index of -len-2..len+1; every slice with bounds in -len-1..len+1 and steps -2..3 for the listed lengths; for lengths 63..65, 255..257, 264 and 300 (thorough to 1025) inversion, concatenation with three bits, and indices and slices at the ends, the middle and byte limits; concatenation of the listed length pairs'

def mk(env, name, n, extra=0):
    """a bit string over symbolic storage, and the list of its bits"""
    B = env.mod('proofmarshal.bits')
    buf = env.bytes(name, (n + 7) // 8 + extra)
    return B.Bits.from_bytes(buf, n), [(buf[i // 8] >> (7 - i % 8)) & 1 for i in range(n)]

def same(env, b, l):
    """every observation of b agrees with the list l"""
    n = len(l)
    if len(b) != n: return False
    it = list(b)
    if len(it) != n: return False
    return env.land(*[env.land(env.eq(it[i], l[i]), env.eq(b[i], l[i])) for i in range(n)])

def access(env, n, extra):
    B = env.mod('proofmarshal.bits')
    b, l = mk(env, 'buf', n, extra)
    env.check(len(b) == n, 'length')
    env.check(same(env, b, l), 'iteration and indexing')
    env.check(env.eq(list(iter(b)), l), 'second iteration')
    for i in range(-n - 2, n + 2):
        r = env.call(lambda: b[i])
        if -n <= i < n: env.check(r.ok and env.eq(r.value, l[i]), 'index %d' % i)
        else: env.check(not r.ok and r.raised(IndexError), 'index %d is out of range' % i)
    c = B.Bits(l)
    env.check(same(env, c, l), 'built from an iterable')
    d = B.Bits(iter([env.eq(x, 1) for x in l]))
    env.check(same(env, d, l), 'built from an iterator of booleans')
    env.check(B.Bits(b) is b or same(env, B.Bits(b), l), 'built from bits')
    inv = [1 - x for x in l]
    env.check(same(env, ~b, inv), 'inversion'); env.check(same(env, ~~b, l), 'double inversion')
    env.check(same(env, b, l), 'unchanged by all that')
    def setit(): b[0] = 1
    def delit(): del b[0]
    env.check(not env.call(setit).ok and not env.call(delit).ok, 'item assignment is refused')
    env.reach('done')

def symindex(env, n):
    """a symbolic index, all at once"""
    b, l = mk(env, 'buf', n, 1)
    i = env.int('i', -2 * n - 3, 2 * n + 3)
    r = env.call(lambda: b[i])
    env.check(env.iff(r.ok, env.land(i >= -n, i < n)), 'in range exactly when the index exists')
    if r.ok:
        env.check(env.eq(r.value, l[i]), 'the indexed bit'); env.reach('in')
    else:
        env.check(r.raised(IndexError), 'IndexError'); env.reach('out')

def slices(env, n, steps):
    b, l = mk(env, 'buf', n, 1)
    ends = [None] + list(range(-n - 1, n + 2))
    for step in steps:
        for s in ends:
            for e in ends:
                env.check(same(env, b[s:e:step], l[s:e:step]), 'slice [%r:%r:%r]' % (s, e, step))
    env.check(same(env, b, l), 'unchanged')
    env.reach('done')

def slice_of_slice(env, n):
    """results of slicing are full bit strings themselves"""
    b, l = mk(env, 'buf', n, 1)
    for k in range(n + 1):
        p = b[:k]
        q = l[:k]
        env.check(same(env, p, q), 'prefix')
        env.check(same(env, ~p, [1 - x for x in q]), 'inverted prefix')
        env.check(same(env, p + b, q + l), 'prefix plus whole'); env.check(same(env, b + p, l + q), 'whole plus prefix')
        env.check(same(env, p[1:], q[1:]), 'tail of prefix'); env.check(same(env, p[:-1], q[:-1]), 'prefix of prefix')
        env.check(b.startswith(p), 'whole starts with its prefix')
        env.check(env.eq(p, type(b)(q)), 'equal to the same bits built fresh')
    env.reach('done')

def concat(env, n, m):
    a, la = mk(env, 'a', n, 1); b, lb = mk(env, 'b', m, 1)
    c = a + b
    env.check(same(env, c, la + lb), 'concatenation')
    env.check(same(env, a, la) and same(env, b, lb), 'operands unchanged')
    env.check(same(env, ~c, [1 - x for x in la + lb]), 'inversion of a concatenation')
    env.check(same(env, c[:n], la), 'head of a concatenation'); env.check(same(env, c[n:], lb), 'tail of a concatenation')
    env.check(same(env, c + a, la + lb + la), 'further concatenation')
    env.check(c.startswith(a), 'starts with its first part')
    env.reach('done')

def prefix(env, n, m):
    a, la = mk(env, 'a', n, 1); b, lb = mk(env, 'b', m, 1)
    r = a.startswith(b)
    exp = m <= n and env.land(*[env.eq(x, y) for x, y in zip(la, lb)])
    env.check(env.iff(r, exp), 'starts with exactly when every bit of the prefix agrees')
    env.reach('yes' if r else 'no')

def long(env, n):
    """the same for strings around the sizes where bytes, words and digests end"""
    B = env.mod('proofmarshal.bits')
    b, l = mk(env, 'buf', n, 0); c, lc = mk(env, 'c', 3, 0)
    def all_eq(x, y): return len(x) == len(y) and env.land(*[env.eq(p, q) for p, q in zip(list(x), y)])
    env.check(all_eq(b, l), 'iteration')
    env.check(all_eq(~b, [1 - x for x in l]), 'inversion')
    env.check(all_eq(b + c, l + lc) and all_eq(c + b, lc + l), 'concatenation')
    env.check(all_eq(B.Bits(l), l), 'built from an iterable')
    for i in (-n - 1, -n, -n + 1, -2, -1, 0, 1, 7, 8, n // 2, n - 9, n - 8, n - 1, n):
        r = env.call(lambda: b[i])
        if -n <= i < n: env.check(r.ok and env.eq(r.value, l[i]), 'index %d' % i)
        else: env.check(not r.ok and r.raised(IndexError), 'index %d is out of range' % i)
    for s in (0, 1, 8, n // 2, n - 1, n, n + 1, -1, -8):
        env.check(all_eq(b[s:], l[s:]) and all_eq(b[:s], l[:s]) and all_eq(~b[:s], [1 - x for x in l[:s]]), 'slices at %d' % s)
        env.check(b.startswith(b[:s]), 'starts with its prefix')
    env.check(all_eq(b[::-1], l[::-1]) and all_eq(b[1::7], l[1::7]), 'steps')
    p = list(l); j = n - 1; p[j] = 1 - p[j]
    env.check(not b.startswith(B.Bits(p)) and not (b == B.Bits(p)) and b == B.Bits(l), 'the last bit counts')
    env.reach('done')

def bad(env):
    B = env.mod('proofmarshal.bits')
    buf = env.bytes('buf', 2)
    n = env.int('n', -3, 20)
    r = env.call(B.Bits.from_bytes, buf, n)
    env.check(env.iff(r.ok, env.land(n >= 0, n <= 16)), 'length must fit the storage')
    env.reach('ok' if r.ok else 'refused')
    if not r.ok: env.check(r.raised(ValueError), 'value error')
    env.check(len(B.Bits.from_bytes(buf)) == 16, 'default length')
    for x in (bytearray(2), 'ab', [1, 0], None): env.check(env.call(B.Bits.from_bytes, x).raised(TypeError), 'storage must be bytes')
    for x in ('1', 1.0, None, (0,)): env.check(env.call(lambda: B.Bits([1])[x]).raised(TypeError), 'index must be an integer')
    for x in ([1], (1,), b'a', None):
        env.check(env.call(lambda: B.Bits([1]) + x).raised(TypeError), 'only bits can be appended')
        env.check(env.call(B.Bits([1]).startswith, x).raised(TypeError), 'only bits can be a prefix')
    env.check(len(B.Bits()) == 0 and list(B.Bits([])) == [], 'empty')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in range(0, 35 if T else 19):
        for x in (0, 1): cs.append(dict(name='access_%d_%d' % (n, x), fn='access', args=dict(n=n, extra=x), reach=['done'], weight=n))
    for n in (1, 2, 7, 8, 9, 17): cs.append(dict(name='symindex_%d' % n, fn='symindex', args=dict(n=n), reach=['in', 'out']))
    for n in (0, 1, 2, 3, 7, 8, 9) + ((10, 15, 16, 17) if T else ()):
        for st in ([None, 1], [2, 3], [-1, -2]): cs.append(dict(name='slices_%d_%s' % (n, st[0]), fn='slices', args=dict(n=n, steps=st), reach=['done'], weight=n * n))
    for n in (16, 17) if not T else (24, 25): cs.append(dict(name='slices_%d' % n, fn='slices', args=dict(n=n, steps=[1]), reach=['done'], weight=300))
    for n in (0, 1, 7, 8, 9, 16, 17) + ((23, 24, 25) if T else ()): cs.append(dict(name='slice_of_slice_%d' % n, fn='slice_of_slice', args=dict(n=n), reach=['done'], weight=n))
    ns = (0, 1, 3, 7, 8, 9, 15, 16, 17) + ((2, 4, 5, 6, 10, 24, 25) if T else ())
    for n in ns:
        for m in ns:
            cs.append(dict(name='concat_%d_%d' % (n, m), fn='concat', args=dict(n=n, m=m), reach=['done']))
            cs.append(dict(name='prefix_%d_%d' % (n, m), fn='prefix', args=dict(n=n, m=m), reach=['no'] if m > n else ['yes', 'no'] if m else ['yes']))
    for n in (63, 64, 65, 255, 256, 257, 264, 300) + ((511, 512, 513, 1025) if T else ()): cs.append(dict(name='long_%d' % n, fn='long', args=dict(n=n), reach=['done'], weight=n))
    cs.append(dict(name='bad', fn='bad', reach=['ok', 'refused']))
    return cs
