"""C11 MMR shape and commitment"""
from props._containers import mmr_type, build
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.mmr']
BOUNDS = 'shape and history independence for 0..20 values (thorough 40) over all split points between constructor, extend and append; slices taken at every point; commitment over all pairs of sizes 0..12 (thorough 17), two-byte values all symbolic'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def values(env, n, p=''): return [env.bytes(p + 'v%d' % i, 2) for i in range(n)]

def T(env):
    return mmr_type(env, ser=env.mod('proofmarshal.serialize').FixedBytes(2))

def shape(env, m, M, vals):
    n = len(vals)
    if n == 0: env.check(m.__class__ is M.EmptyNodeClass, 'empty node'); return
    if n == 1:
        env.check(m.__class__ is M.LeafNodeClass and env.eq(m.value, vals[0]), 'leaf'); return
    # the smallest perfect tree is on the right; a perfect tree is split in halves
    k = n & -n
    if k == n: k = n // 2
    env.check(m.__class__ is M.InnerNodeClass, 'inner node')
    env.check(m.length == n, 'the inner node states its length')
    shape(env, m.left, M, vals[:n - k]); shape(env, m.right, M, vals[n - k:])

def history(env, n):
    M = T(env)
    vals = values(env, n)
    m = M()
    for v in vals: m = m.append(v)
    shape(env, m, M, vals)
    b = build(env, M, vals)
    env.check(env.eq(b.hash, m.hash), 'hash independent of the build history')
    env.check(env.land(b == m, env.lnot(b != m)), 'equal')
    env.check(env.eq(b.serialize(), m.serialize()), 'same bytes')
    shape(env, b, M, vals)
    env.reach('done')

def prefix(env, n):
    """slices are the canonical range of their values too"""
    M = T(env)
    vals = values(env, n)
    m = M(vals)
    a = env.choice('a', n + 1); b = env.choice('b', n + 1)
    if a > b: a = b
    r = m[a:b]
    if a == 0:
        shape(env, r, M, vals[:b])
        env.check(env.eq(r.hash, M(vals[:b]).hash), 'prefix hash')
        r = r.extend(vals[b:])
        env.check(env.eq(r.hash, m.hash), 'a prefix extended by the rest is the whole')
    env.check(env.eq(M(list(m[a:b])).hash, M(vals[a:b]).hash), 'rebuilt from a slice')
    env.reach('done')

def commit(env, n, m):
    M = T(env)
    x = values(env, n, 'x'); y = values(env, m, 'y')
    a = M(x); b = M(y)
    same = n == m and env.eq(x, y)
    env.check(env.iff(env.eq(a.hash, b.hash), same), 'equal hashes exactly for equal lists')
    env.check(env.iff(a == b, same), 'equality')
    env.reach('done')

def subtree(env, n):
    """no value list has the hash of an inner part of another one, nor do two element types share hashes"""
    M = T(env); N = mmr_type(env, tag='838b5a85-d6f1-4873-9c21-300a01166f1d', ser=env.mod('proofmarshal.serialize').FixedBytes(2))
    x = values(env, n, 'x'); y = values(env, n, 'y')
    env.check(env.lnot(env.eq(M(x).hash, N(y).hash)), 'ranges of different types have different hashes')
    a = M(x)
    if n > 1:
        env.check(env.lnot(env.eq(a.left.hash, M(y).hash)), 'part and whole')
        env.check(env.lnot(env.eq(a.right.hash, M(y).hash)), 'part and whole')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = [dict(name='history_%d' % n, fn='history', args=dict(n=n), reach=['done'], weight=n) for n in range(0, 41 if T else 21)]
    cs += [dict(name='prefix_%d' % n, fn='prefix', args=dict(n=n), reach=['done'], weight=n) for n in range(0, 18 if T else 10)]
    K = 18 if T else 13
    cs += [dict(name='commit_%d_%d' % (a, b), fn='commit', args=dict(n=a, m=b), reach=['done'], weight=a) for a in range(K) for b in range(a + 1)]
    cs += [dict(name='parts_%d' % n, fn='subtree', args=dict(n=n), reach=['done']) for n in range(K)]
    return cs
