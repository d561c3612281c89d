"""C04 equality, ordering and common prefix of bit strings"""
from props.c03 import mk, same
PRELOAD = ['proofmarshal.bits']
BOUNDS = 'all pairs of bit strings of the listed lengths (0..17, thorough 0..25) and all triples up to 9 bits, every bit (used and unused) symbolic'

def lex(env, la, lb):
    """la < lb lexicographically, a proper prefix being smaller"""
    r = len(la) < len(lb)
    for x, y in reversed(list(zip(la, lb))):
        r = env.lor(x < y, env.land(env.eq(x, y), r))
    return r

def pair(env, n, m):
    a, la = mk(env, 'a', n, 1); b, lb = mk(env, 'b', m, 1)
    eq = n == m and env.land(*[env.eq(x, y) for x, y in zip(la, lb)])
    env.check(env.iff(a == b, eq), 'equal exactly when length and bits agree')
    env.check(env.iff(b == a, eq), 'symmetric'); env.check(env.iff(a != b, env.lnot(eq)), 'inequality')
    lt = lex(env, la, lb)
    env.check(env.iff(a < b, lt), 'lexicographic order')
    env.check(env.iff(b > a, lt), 'mirrored'); env.check(env.iff(a <= b, env.lor(lt, eq)), 'less or equal')
    env.check(env.iff(a > b, env.land(env.lnot(lt), env.lnot(eq))), 'greater'); env.check(env.iff(a >= b, env.lnot(lt)), 'greater or equal')
    env.reach('done')

def self_order(env, n):
    B = env.mod('proofmarshal.bits')
    a, la = mk(env, 'a', n, 1)
    b = B.Bits(la)
    env.check(a == b and not (a != b) and not (a < b) and not (b < a) and a <= b and a >= b, 'same bits, different storage')
    env.check(not (a < a) and a == a and a <= a, 'reflexivity')
    for o in (None, la, 'x', 3): env.check((a == o) is False and (a != o) is True, 'never equal to something else')
    for o in (None, la, 3): env.check(env.call(lambda: a < o).raised(TypeError), 'not comparable with something else')
    env.reach('done')

def triple(env, n, m, k):
    a, _ = mk(env, 'a', n); b, _ = mk(env, 'b', m); c, _ = mk(env, 'c', k)
    ab = a < b; bc = b < c
    env.check(env.implies(env.land(ab, bc), a < c), 'transitive')
    env.check(env.lnot(env.land(ab, b < a)), 'asymmetric')
    env.check(env.lor(ab, b < a, a == b), 'total')
    env.reach('done')

def common(env, n, m):
    a, la = mk(env, 'a', n, 1); b, lb = mk(env, 'b', m, 1)
    c = a.common_prefix(b)
    k = len(c)
    env.check(k <= min(n, m), 'not longer than either')
    env.check(env.land(same(env, c, la[:k]), same(env, c, lb[:k])), 'a prefix of both')
    env.check(k == min(n, m) or env.lnot(env.eq(la[k], lb[k])), 'the longest one')
    d = b.common_prefix(a)
    env.check(env.eq(c, d), 'symmetric')
    env.check(a.startswith(c) and b.startswith(c), 'recognised as prefix')
    env.reach('all' if k == min(n, m) else 'part')

def common_type(env):
    B = env.mod('proofmarshal.bits')
    for x in ([1], None, b'a', (1,)): env.check(env.call(B.Bits([1]).common_prefix, x).raised(TypeError), 'only with bits')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    ns = (0, 1, 2, 3, 7, 8, 9, 15, 16, 17) + ((4, 5, 6, 10, 12, 23, 24, 25) if T else ())
    for n in ns:
        for m in ns:
            cs.append(dict(name='pair_%d_%d' % (n, m), fn='pair', args=dict(n=n, m=m), reach=['done']))
            if m <= n: cs.append(dict(name='common_%d_%d' % (n, m), fn='common', args=dict(n=n, m=m), reach=['all', 'part'] if m else ['all']))
        cs.append(dict(name='self_%d' % n, fn='self_order', args=dict(n=n), reach=['done']))
    ts = (0, 1, 2, 3, 8, 9) + ((7, 16, 17) if T else ())
    for n in ts:
        for m in ts:
            for k in ts: cs.append(dict(name='triple_%d_%d_%d' % (n, m, k), fn='triple', args=dict(n=n, m=m, k=k), reach=['done']))
    cs.append(dict(name='common_type', fn='common_type'))
    return cs
