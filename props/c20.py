"""C20 no two disclosures of one commitment contradict each other"""
from props._containers import tree_type, mmr_type, key
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'proofmarshal.mmr', 'proofmarshal.merbinnertree']
BOUNDS = 'all pairs of received containers of inner depth 1; pairs of depth 2 of which one stops at an inner node below the root and the other continues to two leaves (thorough: also pairs of depth 2 agreeing on node types, one child of the root being a leaf), each node pruned (arbitrary digest), empty, leaf or inner with arbitrary contents, stated lengths 0..127, indices -6..6; trees with prefixes of 0..1 bits and 2-bit keys'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def fixed(env): return env.mod('proofmarshal.serialize').FixedBytes(1)

KINDS = ['pruned-empty', 'pruned-leaf', 'pruned-inner', 'empty', 'leaf', 'inner']

def node(env, what, name, depth, kinds):
    """serialized form of an arbitrary received node; kinds: already chosen kind or None"""
    k = KINDS[env.choice(name + '.kind', 6 if depth else 5)] if kinds is None else kinds
    v = dict(empty=0, leaf=1, inner=2)[k.split('-')[-1]]
    if k.startswith('pruned'): return bytes([0xff, v]) + env.bytes(name + '.digest', 32)
    h = bytes([0, v])
    if k == 'empty': return h
    if k == 'leaf':
        if what == 'mmr': return h + env.bytes(name + '.value', 1)
        return h + key(env, name + '.key', 2) + env.bytes(name + '.value', 1)
    return None

def one(env, what, name, depth, kind=None):
    if kind is None: kind = KINDS[env.choice(name + '.kind', 6 if depth else 5)]
    b = node(env, what, name, depth, kind)
    if b is not None: return b
    return inner(env, what, name, one(env, what, name + 'l', depth - 1), one(env, what, name + 'r', depth - 1))

def inner(env, what, name, l, r):
    h = bytes([0, 2])
    if what == 'mmr': return h + l + r + bytes([env.int(name + '.length', 0, 127)])
    B = env.mod('proofmarshal.bits')
    n = env.choice(name + '.plen', 2)
    p = B.Bits([env.choice(name + '.pbit%d' % j, 2) for j in range(n)])
    return h + B.BitsSerializer.serialize(p) + l + r

def both(env, what, name, depth, v=None):
    """two received nodes agreeing on the node type at every disclosed level"""
    if v is None: v = ['leaf', 'inner', 'empty'][env.choice(name + '.type', 2 if depth == 0 else 3)]
    pa = env.bool(name + '.pa'); pb = env.bool(name + '.pb')
    if v == 'inner' and depth == 0: env.assume(env.land(pa, pb))
    ka = 'pruned-' + v if pa else v
    kb = 'pruned-' + v if pb else v
    a = node(env, what, name + 'A', depth, ka); b = node(env, what, name + 'B', depth, kb)
    if a is None and b is None:
        la, lb = both(env, what, name + 'l', depth - 1); ra, rb = both(env, what, name + 'r', depth - 1)
        return inner(env, what, name + 'A', la, ra), inner(env, what, name + 'B', lb, rb)
    if a is None: a = one(env, what, name + 'A', depth if depth < 2 else 1, 'inner')
    if b is None: b = one(env, what, name + 'B', depth if depth < 2 else 1, 'inner')
    return a, b

def statements(env, what, x, y, i):
    P = env.mod('proofmarshal.proof')
    env.assume(env.eq(x.hash, y.hash))
    silent = (P.PrunedError, AssertionError)
    if what == 'mmr':
        lx = env.call(len, x); ly = env.call(len, y)
        for r in (lx, ly): env.check(r.ok or r.raised(silent), 'length, or pruned')
        if lx.ok and ly.ok: env.check(env.eq(lx.value, ly.value), 'lengths do not contradict'); env.reach('len')
        a = env.call(lambda: x[i]); b = env.call(lambda: y[i])
        no = IndexError
        if a.ok and ly.ok: env.check(env.land(i < ly.value, i >= -ly.value), 'an element contradicts the length')
    else:
        lx = env.call(len, x); ly = env.call(len, y)
        for r in (lx, ly): env.check(r.ok or r.raised(silent), 'size, or pruned')
        if lx.ok and ly.ok: env.check(env.eq(lx.value, ly.value), 'sizes do not contradict'); env.reach('len')
        a = env.call(lambda: i in x); b = env.call(lambda: i in y)
        if a.ok and b.ok: env.check(env.iff(a.value, b.value), 'presence does not contradict')
        a = env.call(lambda: x[i]); b = env.call(lambda: y[i])
        no = KeyError
        silent += (IndexError,)
    m = env.call(list, x); n = env.call(list, y)
    if m.ok and n.ok: env.check(len(m.value) == len(n.value) and env.land(*[env.eq(p, q) for p, q in zip(m.value, n.value)]), 'iterations do not contradict')
    for r in (a, b): env.check(r.ok or r.raised(no) or r.raised(silent), 'an answer or a refusal')
    if a.ok and b.ok: env.check(env.eq(a.value, b.value), 'values do not contradict'); env.reach('values')
    elif a.ok: env.check(not b.raised(no), 'value against absence'); env.reach('refused')
    elif b.ok: env.check(not a.raised(no), 'value against absence')
    else: env.reach('no value'); env.check(True, '')

def typ(env, what): return mmr_type(env, ser=fixed(env)) if what == 'mmr' else tree_type(env, 2, ser=fixed(env))
def idx(env, what): return env.int('i', -6, 6) if what == 'mmr' else key(env, 'i', 2)

def free(env, what, root_a, root_b, da, db):
    M = typ(env, what)
    x = M.deserialize(one(env, what, 'A', da, root_a)); y = M.deserialize(one(env, what, 'B', db, root_b))
    statements(env, what, x, y, idx(env, what))

def typed(env, what, tl, tr):
    M = typ(env, what)
    la, lb = both(env, what, 'l', 1, tl); ra, rb = both(env, what, 'r', 1, tr)
    a = inner(env, what, 'A', la, ra); b = inner(env, what, 'B', lb, rb)
    statements(env, what, M.deserialize(a), M.deserialize(b), idx(env, what))

def deeper(env, what, side, leaf):
    """one disclosure stops at an inner node below the root, the other goes on to its leaves; the other side is the same leaf, disclosed or not"""
    M = typ(env, what)
    P = ['pruned-leaf', 'leaf']
    o = [node(env, what, 'o%s' % n, 0, P[leaf >> k & 1]) for k, n in enumerate('AB')]
    lo = inner(env, what, 'D', node(env, what, 'Dl', 0, 'leaf'), node(env, what, 'Dr', 0, 'leaf'))
    pr = node(env, what, 'Dp', 1, 'pruned-inner')
    a = inner(env, what, 'A', *([pr, o[0]] if side == 0 else [o[0], pr])); b = inner(env, what, 'B', *([lo, o[1]] if side == 0 else [o[1], lo]))
    statements(env, what, M.deserialize(a), M.deserialize(b), idx(env, what))

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for w in ('mmr', 'tree'):
        for a in KINDS:
            for b in KINDS:
                if KINDS.index(a) > KINDS.index(b): continue
                d = (1, 1)
                full = a == b == 'inner'
                same = a.split('-')[-1] == b.split('-')[-1]
                if not same: continue     # node types are told apart (checked below)
                cs.append(dict(name='%s_%s_%s' % (w, a, b), fn='free', args=dict(what=w, root_a=a, root_b=b, da=1, db=1), weight=10 if full else 1,
                               reach=['values', 'no value'] if full else []))
        for s in (0, 1):
            for l in range(4): cs.append(dict(name='%s_deeper_%d_%d' % (w, s, l), fn='deeper', args=dict(what=w, side=s, leaf=l), weight=5, reach=['no value']))
        cs.append(dict(name='%s_types' % w, fn='types', args=dict(what=w), reach=['done']))
        for tl, tr in [('inner', 'leaf'), ('leaf', 'inner')] if T else []:
            cs.append(dict(name='%s_depth2_%s_%s' % (w, tl, tr), fn='typed', args=dict(what=w, tl=tl, tr=tr), weight=100, reach=['values', 'no value'], opts=dict(case_s=3000)))
    return cs

def types(env, what):
    """received nodes of different types never have the same hash"""
    M = typ(env, what)
    a = KINDS[env.choice('ka', 6)]; b = KINDS[env.choice('kb', 6)]
    if a.split('-')[-1] == b.split('-')[-1]: env.check(True, ''); return
    x = M.deserialize(one(env, what, 'A', 1, a)) if a != 'inner' else M.deserialize(inner(env, what, 'A', one(env, what, 'Al', 0), one(env, what, 'Ar', 0)))
    y = M.deserialize(one(env, what, 'B', 1, b)) if b != 'inner' else M.deserialize(inner(env, what, 'B', one(env, what, 'Bl', 0), one(env, what, 'Br', 0)))
    env.check(env.lnot(env.eq(x.hash, y.hash)), 'different node types have different hashes')
    env.reach('done')
