"""C10 MMR as a list"""
from props._containers import mmr_type, build
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.mmr']
BOUNDS = 'ranges of 0..34 values (thorough 66) with symbolic values, built by symbolic splits between constructor, extend and append; every integer index in and around the range; every pair of slice bounds (including omitted and negative ones) for 0..17 values (thorough 24); slices of slices for 0..8 values (thorough 10); ranges of 63..65 and 127..130 values, two of them symbolic, at selected indices and slice bounds'
ASSUMPTIONS = ['SHA-256 is an ideal injective function (element values are compared directly, the tree shape does not depend on them)']

def values(env, n): return [env.int('v%d' % i, 0, 0xffff) for i in range(n)]

def whole(env, n):
    M = mmr_type(env)
    vals = values(env, n)
    m = build(env, M, vals)
    env.check(len(m) == n, 'length')
    env.check(env.eq(list(m), vals), 'iteration')
    env.check(env.eq(list(reversed(m)), vals[::-1]), 'reversed iteration')
    env.check(env.eq(list(m), vals), 'iteration again')
    env.check(bool(m) == bool(vals), 'truth value')
    env.check(m.is_perfect_tree() == (n > 0 and n & (n - 1) == 0), 'perfect tree exactly for powers of two')
    r = m[:]
    env.check(len(r) == n and env.eq(list(r), vals), 'full slice')
    for st in (2, -1):
        q = env.call(lambda: m[::st])
        env.check(q.ok and n == 0 or q.raised(NotImplementedError), 'other steps are refused')
    for bad in ('0', None, 1.0, (0,)):
        q = env.call(lambda: m[bad])
        env.check(not q.ok and q.raised(TypeError), 'bad index type')
    env.reach('done')

def index(env, n):
    M = mmr_type(env)
    vals = values(env, n)
    m = M(vals)
    i = env.int('i', -n - 3, n + 3)
    r = env.call(lambda: m[i])
    if r.ok:
        env.check(env.land(i >= -n, i < n), 'index in range')
        env.check(env.eq(r.value, vals[i]), 'the value at that index')
        env.reach('value')
    else:
        env.check(r.raised(IndexError), 'IndexError')
        env.check(env.lor(i < -n, i >= n), 'index out of range')
        env.reach('error')

def far_index(env, n):
    M = mmr_type(env)
    m = M(values(env, n))
    i = env.int('i', -(1 << 66), 1 << 66)
    env.assume(env.lor(i < -n, i >= n))
    r = env.call(lambda: m[i])
    env.check(not r.ok and r.raised(IndexError), 'IndexError')
    env.reach('done')

def slices(env, n):
    M = mmr_type(env)
    vals = values(env, n)
    m = M(vals)
    start = env.concrete(env.int('start', -n - 2, n + 3)); stop = env.concrete(env.int('stop', -n - 2, n + 3))
    if start == n + 3: start = None
    if stop == n + 3: stop = None
    r = m[start:stop]
    env.check(isinstance(r, M), 'a range of the same type')
    exp = vals[start:stop]
    env.check(len(r) == len(exp), 'slice length')
    env.check(env.eq(list(r), exp), 'slice contents')
    env.check(env.eq(list(reversed(r)), exp[::-1]), 'slice contents reversed')
    for k in range(len(exp)): env.check(env.eq(r[k], exp[k]), 'indexing the slice')
    env.check(env.eq(list(m[start:stop:1]), exp), 'explicit step')
    w = env.int('w', 0, 0xffff)
    env.check(env.eq(list(r.append(w)), exp + [w]), 'slice extended')
    env.check(env.eq(list(m), vals), 'the original stays')
    env.reach('empty' if not exp else 'some')

def large(env, n):
    M = mmr_type(env)
    vals = [3 * i + 1 for i in range(n)]
    vals[n // 2] = env.int('v', 0, 0xffff); vals[-1] = env.int('w', 0, 0xffff)
    a = [0, 1, n // 2, n - 1, n][env.choice('split', 5)]
    m = M(vals[:a]).extend(vals[a:-1] if a < n else [])
    if a < n: m = m.append(vals[-1])
    env.check(len(m) == n and env.eq(list(m), vals) and env.eq(list(reversed(m)), vals[::-1]), 'the values')
    ks = [0, 1, 2, 31, 32, 33, 62, 63, n // 2, n - 2, n - 1]
    for k in ks:
        if k < n: env.check(env.eq(m[k], vals[k]) and env.eq(m[k - n], vals[k]), 'indices')
    for k in (n, n + 1, -n - 1, 1 << n.bit_length()): env.check(env.call(lambda: m[k]).raised(IndexError), 'out of range')
    for i in (0, 1, 31, 33, 63, n - 2):
        for j in (2, 32, 64, n - 1, n):
            s = m[i:j]
            env.check(len(s) == len(vals[i:j]) and env.eq(list(s), vals[i:j]), 'slices')
    env.reach('done')

def reslice(env, n):
    M = mmr_type(env)
    vals = values(env, n)
    a = env.choice('a', n + 1); b = env.choice('b', n + 1); c = env.choice('c', n + 1); d = env.choice('d', n + 1)
    m = M(vals)[a:b][c:d]
    env.check(env.eq(list(m), vals[a:b][c:d]), 'slice of a slice')
    w = env.int('w', 0, 0xffff)
    env.check(env.eq(list(m.extend([w, w])), vals[a:b][c:d] + [w, w]), 'extended slice')
    env.reach('done')

def refuse(env, n):
    M = mmr_type(env)
    vals = values(env, n)
    m = M(vals)
    for bad in (None, 'x', -1, 1 << 16):
        for f in (lambda: m.append(bad), lambda: m.extend([bad]), lambda: M(vals + [bad])):
            env.check(not env.call(f).ok, 'ill-typed values are refused')
    env.check(env.eq(list(m), vals), 'unchanged')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in range(0, 67 if T else 35):
        if n <= (66 if T else 34): cs.append(dict(name='whole_%d' % n, fn='whole', args=dict(n=n), reach=['done'], weight=n))
        cs.append(dict(name='index_%d' % n, fn='index', args=dict(n=n), reach=['value', 'error'] if n else ['error'], weight=n))
        cs.append(dict(name='far_%d' % n, fn='far_index', args=dict(n=n), reach=['done']))
    for n in range(0, 25 if T else 18): cs.append(dict(name='slices_%d' % n, fn='slices', args=dict(n=n), reach=['empty', 'some'] if n else ['empty'], weight=50 + n))
    for n in range(0, 11 if T else 9): cs.append(dict(name='reslice_%d' % n, fn='reslice', args=dict(n=n), reach=['done'], weight=50 + n))
    for n in range(0, 4): cs.append(dict(name='refuse_%d' % n, fn='refuse', args=dict(n=n), reach=['done']))
    for n in (63, 64, 65, 127, 128, 129, 130): cs.append(dict(name='large_%d' % n, fn='large', args=dict(n=n), reach=['done'], weight=n))
    return cs
