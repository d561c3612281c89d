"""C13 merbinner trees: history independence, commitment, subset"""
from props._containers import tree_type, key, Ref
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'proofmarshal.merbinnertree']
BOUNDS = 'maps of up to 3 arbitrary keys (4 with 2-bit keys; thorough 4 with 3-bit keys), 2-, 3-, 8- and 16-bit keys, two-byte values; every insertion order, an extra key put and removed at every point, an overwritten value; commitment and subset over all pairs of maps with up to 3 (2-bit keys: 3 against 3) entries'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def typ(env, nbits, width=1): return tree_type(env, nbits, width, ser=env.mod('proofmarshal.serialize').FixedBytes(2))

def perm(env, n):
    left = list(range(n)); out = []
    for j in range(n): out.append(left.pop(env.choice('perm%d' % j, len(left))))
    return out

def distinct(env, ks):
    for i in range(len(ks)):
        for j in range(i): env.assume(env.lnot(env.eq(ks[i], ks[j])))

def shape(env, m, M, nbits):
    """the documented invariants: children extend the prefix by 0 on the left and 1 on the right, prefixes are longest"""
    B = env.mod('proofmarshal.bits')
    if m.__class__ is M.EmptyNodeClass: return
    if m.__class__ is M.LeafNodeClass:
        env.check(len(m.prefix) == nbits, 'leaf prefix'); return
    p = m.prefix
    for side, bit in ((m.left, 0), (m.right, 1)):
        env.check(side.__class__ is not M.EmptyNodeClass, 'no empty children')
        env.check(side.prefix.startswith(p + B.Bits([bit])), 'side by the next bit')
        shape(env, side, M, nbits)

def history(env, n, nbits, width, extra):
    M = typ(env, nbits, width)
    ks = [key(env, 'k%d' % i, nbits, width) for i in range(n)]
    vals = [env.bytes('v%d' % i, 2) for i in range(n)]
    distinct(env, ks)
    a = M()
    for k, v in zip(ks, vals): a = a.put(k, v)
    shape(env, a, M, nbits)
    b = M()
    at = env.choice('at', n + 1) if extra else -1
    z = key(env, 'z', nbits, width) if extra == 'remove' else None
    if extra == 'remove':
        for k in ks: env.assume(env.lnot(env.eq(k, z)))
    w = env.bytes('w', 2)
    first = True
    for j, i in enumerate(perm(env, n)):
        if extra == 'remove' and j == at: b = b.put(z, w)
        if extra == 'overwrite' and j == at: b = b.put(ks[i], w)
        if extra == 'reput' and j == at: b = b.put(ks[i], w).remove(ks[i])
        b = b.put(ks[i], vals[i])
    if extra == 'remove':
        if at == n: b = b.put(z, w)
        b = b.remove(z)
    env.check(env.eq(a.hash, b.hash), 'same hash')
    env.check(env.land(a == b, env.eq(a.serialize(), b.serialize())), 'same tree')
    env.check(env.land(a.issubset(b), b.issubset(a)), 'subset of itself')
    shape(env, b, M, nbits)
    env.reach('done')

def pairs(env, n, m, nbits, width):
    M = typ(env, nbits, width)
    ka = [key(env, 'a%d' % i, nbits, width) for i in range(n)]; va = [env.bytes('x%d' % i, 2) for i in range(n)]
    kb = [key(env, 'b%d' % i, nbits, width) for i in range(m)]; vb = [env.bytes('y%d' % i, 2) for i in range(m)]
    # insertion order does not matter (above), so keys may be taken in increasing order
    for ks in (ka, kb):
        for i in range(1, len(ks)): env.assume(ks[i - 1] < ks[i])
    a = M(zip(ka, va)); b = M(zip(kb, vb))
    sub = env.land(*[env.lor(*[env.land(env.eq(k, q), env.eq(v, w)) for q, w in zip(kb, vb)]) for k, v in zip(ka, va)])
    same = n == m and env.land(*[env.land(env.eq(k, q), env.eq(v, w)) for k, v, q, w in zip(ka, va, kb, vb)])
    env.check(env.iff(env.eq(a.hash, b.hash), same), 'equal hashes exactly for equal maps')
    env.check(env.iff(a == b, same), 'equality')
    env.check(env.iff(a.issubset(b), sub), 'subset exactly when every pair is in the other')
    if n == m: env.reach('same') if same else env.reach('different')
    else: env.reach('different')
    env.reach('subset' if sub else 'not subset')

def other(env):
    M = typ(env, 8)
    N = tree_type(env, 8, tag='3bb60984-0486-41ab-aad6-bd5b1586bd14', ser=env.mod('proofmarshal.serialize').FixedBytes(2))
    k = key(env, 'k'); v = env.bytes('v', 2); q = key(env, 'q')
    for a, b in ((M(), N()), (M([(k, v)]), N([(k, v)]))):
        env.check(env.lnot(env.eq(a.hash, b.hash)), 'types are told apart')
        r = env.call(a.issubset, b)
        env.check(not r.ok and r.raised(TypeError), 'subset tests need the same type')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n, nb, w in [(0, 2, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1), (2, 3, 1), (3, 3, 1), (2, 8, 1), (2, 16, 2)] + ([(4, 2, 1), (4, 3, 1), (3, 8, 1)] if T else []):
        for e in ('', 'remove', 'overwrite', 'reput'):
            if e == 'remove' and (2 ** nb <= n or nb > 8 and not T): continue
            cs.append(dict(name='history_%d_of_%d_bits_%s' % (n, nb, e), fn='history', args=dict(n=n, nbits=nb, width=w, extra=e), reach=['done'], weight=n * nb))
    for n in range(4):
        for m in range(4):
            for nb, w in [(2, 1)] + ([(8, 1), (16, 2)] if n + m <= (4 if T else 3) else []) + ([(3, 1)] if n + m <= (6 if T else 5) else []):
                if n == 0 and m == 0 and nb > 2: continue
                cs.append(dict(name='pairs_%d_%d_of_%d_bits' % (n, m, nb), fn='pairs', args=dict(n=n, m=m, nbits=nb, width=w), weight=(n + m) * nb,
                               reach=(['different'] if n + m else []) + (['same'] if n == m else []) + (['subset'] if n <= m else []) + (['not subset'] if n else [])))
    if T: cs += [dict(name='pairs_%d_%d_of_2_bits' % (n, m), fn='pairs', args=dict(n=n, m=m, nbits=2, width=1)) for n, m in ((4, 3), (3, 4), (4, 4), (2, 4), (4, 2))]
    cs.append(dict(name='types', fn='other', reach=['done']))
    return cs
