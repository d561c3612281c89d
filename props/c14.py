"""C14 containers survive serialization and partial disclosure"""
from props._containers import tree_type, mmr_type, key
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'proofmarshal.mmr', 'proofmarshal.merbinnertree']
BOUNDS = 'ranges of 0..8 values (thorough 12) with every subset of elements looked up on the pruned copy, trees of up to 3 arbitrary 3-bit keys (2 of 8 bits) with up to 2 (8-bit keys: 1, thorough 2) arbitrary present or absent keys looked up; all contents symbolic; up to two generations of pruning and forwarding'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def fixed(env): return env.mod('proofmarshal.serialize').FixedBytes(2)

def honest(env, P, f, good):
    """f gives the right answer or says that it is pruned"""
    r = env.call(f)
    if r.ok: env.check(good(r.value), 'never a wrong answer')
    else: env.check(r.raised(P.PrunedError), 'what is not disclosed raises the pruned error, not %s' % r.name)
    return r.ok

def mmr(env, n, gen):
    P = env.mod('proofmarshal.proof')
    M = mmr_type(env, ser=fixed(env))
    vals = [env.bytes('v%d' % i, 2) for i in range(n)]
    m = M(vals)
    f = M.deserialize(m.serialize())
    env.check(f.__class__ is m.__class__ and len(f) == n and env.eq(list(f), vals) and env.eq(f.hash, m.hash) and f == m, 'full round trip')
    if gen == 1: m = f
    if gen == 2: m = m.prune()
    p = m.prune()
    touched = []
    for i in range(n):
        if env.bool('acc%d' % i):
            env.check(env.eq(p[i] if i % 2 else p[i - n], vals[i]), 'looked up on the pruned copy'); touched.append(i)
    y = M.deserialize(p.serialize())
    env.check(env.eq(y.hash, m.hash), 'hash'); env.check(env.land(y == m, env.eq(p.hash, m.hash)), 'equal')
    for i in range(n):
        ok = honest(env, P, lambda: y[i], lambda v: env.eq(v, vals[i]))
        env.check(ok or i not in touched, 'looked-up elements are available')
        honest(env, P, lambda: y[i - n], lambda v: env.eq(v, vals[i]))
    if touched: env.check(len(y) == n, 'length')
    honest(env, P, lambda: len(y), lambda v: v == n)
    for i in (n, -n - 1):
        r = env.call(lambda: y[i])
        env.check(not r.ok and (r.raised(IndexError) or r.raised(P.PrunedError)), 'out of range')
    got = []
    r = env.call(lambda: [got.append(v) for v in y])
    env.check(env.eq(got, vals[:len(got)]) and (r.ok and len(got) == n or not r.ok and r.raised(P.PrunedError)), 'iteration')
    w = env.bytes('w', 2)
    honest(env, P, lambda: y.append(w), lambda v: env.eq(v.hash, M(vals + [w]).hash))
    for a in range(n + 1):
        honest(env, P, lambda: list(y[:a]), lambda v: env.eq(v, vals[:a]))
        honest(env, P, lambda: list(y[a:]), lambda v: env.eq(v, vals[a:]))
    env.reach('some' if touched else 'none')

def tree(env, n, nbits, width, looks, gen):
    P = env.mod('proofmarshal.proof')
    M = tree_type(env, nbits, width, ser=fixed(env))
    ks = [key(env, 'k%d' % i, nbits, width) for i in range(n)]; vals = [env.bytes('v%d' % i, 2) for i in range(n)]
    for i in range(1, n): env.assume(ks[i - 1] < ks[i])
    m = M(zip(ks, vals))
    f = M.deserialize(m.serialize())
    env.check(f.__class__ is m.__class__ and len(f) == n and env.eq(list(f.items()), list(zip(ks, vals))) and env.eq(f.hash, m.hash) and f == m, 'full round trip')
    def find(q):
        for k, v in zip(ks, vals):
            if env.eq(k, q): return v
    if gen == 1: m = f
    if gen == 2: m = m.prune()
    p = m.prune()
    def look(t, q, tell):
        """True if t answered about q, and then correctly"""
        r = env.call(lambda: t[q])
        e = find(q)
        if r.ok: env.check(e is not None and env.eq(r.value, e), 'never a wrong value')
        elif r.raised(KeyError): env.check(e is None, 'never a wrong absence')
        else:
            env.check(r.raised(P.PrunedError), 'pruned error, not %s' % r.name)
            return False
        return True
    qs = [key(env, 'q%d' % j, nbits, width) for j in range(looks)]
    for q in qs: env.check(look(p, q, True), 'lookups on the pruned copy are answered')
    y = M.deserialize(p.serialize())
    env.check(env.eq(y.hash, m.hash), 'hash'); env.check(env.land(y == m, env.eq(p.hash, m.hash)), 'equal')
    for q in qs: env.check(look(y, q, True), 'lookups made before are answered again')
    z = key(env, 'z', nbits, width)
    if look(y, z, False): env.reach('answered')
    else: env.reach('pruned')
    got = []
    r = env.call(lambda: [got.append(v) for v in y.items()])
    env.check(env.eq(got, list(zip(ks, vals))[:len(got)]) and (r.ok and len(got) == n or not r.ok and r.raised(P.PrunedError)), 'items')
    honest(env, P, lambda: len(y), lambda v: v == n)
    w = env.bytes('w', 2)
    honest(env, P, lambda: y.put(z, w).hash, lambda h: env.eq(h, m.put(z, w).hash))
    honest(env, P, lambda: z in y, lambda v: v == (find(z) is not None))
    env.reach('done')

def subset(env, n, nbits):
    P = env.mod('proofmarshal.proof')
    M = tree_type(env, nbits, ser=fixed(env))
    ks = [key(env, 'k%d' % i, nbits) for i in range(n)]; vals = [env.bytes('v%d' % i, 2) for i in range(n)]
    for i in range(1, n): env.assume(ks[i - 1] < ks[i])
    m = M(zip(ks, vals))
    q = key(env, 'q', nbits); w = env.bytes('w', 2)
    o = M([(q, w)])
    p = m.prune()
    env.call(lambda: p[ks[0]])
    y = M.deserialize(p.serialize())
    sub = env.lor(*[env.land(env.eq(k, q), env.eq(v, w)) for k, v in zip(ks, vals)])
    honest(env, P, lambda: o.issubset(y), lambda v: env.iff(v, sub))
    honest(env, P, lambda: y.issubset(m), lambda v: v)
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in range(0, 13 if T else 9):
        for g in (0, 1, 2):
            if g and n > (8 if T else 6): continue
            cs.append(dict(name='mmr_%d_gen%d' % (n, g), fn='mmr', args=dict(n=n, gen=g), reach=['none'] + (['some'] if n else []), weight=n * 4))
    for n in range(0, 4):
        for nb, w in ((3, 1), (8, 1)) if n <= 2 else (((2, 1), (3, 1), (8, 1)) if T else ((2, 1), (3, 1))):
            for l in (0, 1, 2) if n <= 2 or T or nb < 3 else (0, 1):
                for g in (0, 1, 2):
                    if (g or l > 1) and nb > 3 and not T or g and l > 1 and not T: continue
                    cs.append(dict(name='tree_%d_of_%d_bits_%d_looks_gen%d' % (n, nb, l, g), fn='tree', args=dict(n=n, nbits=nb, width=w, looks=l, gen=g), weight=n * nb * (l + 1),
                                   reach=['done'] + (['answered', 'pruned'] if n > 1 and l else [])))
    for n in (1, 2, 3): cs.append(dict(name='subset_%d' % n, fn='subset', args=dict(n=n, nbits=3 if n < 3 else 2), reach=['done']))
    return cs
