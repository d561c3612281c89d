"""C09 proof structures are immutable"""
from props import _pm
from props._containers import mmr_type, tree_type, key
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'proofmarshal.mmr', 'proofmarshal.merbinnertree']
BOUNDS = 'the structure kinds of _pm, Merkle mountain ranges of up to 5 values and merbinner trees of up to 3 keys, contents symbolic (of more than two integers the first is unrestricted and the others one-byte); every attribute and every index; pruned and received copies too'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def attrs(env, kind, form):
    t = _pm.types(env)
    t.wide = None if len(_pm.ints(kind)) <= 2 else _pm.ints(kind)[:1]
    x = _pm.make(env, t, kind)
    ref = x.serialize(); h = None
    if form == 'hashed': h = x.hash
    y = x
    if form == 'pruned': y = x.prune()
    if form == 'partial':
        y = x.prune()
        for path, isp in _pm.nodes(t, x)[:1]: _pm.get(y, path)
    if form == 'received': y = _pm.decl(t, kind).deserialize(ref)
    h0 = y.hash if form != 'fresh' else None
    ser0 = y.serialize()
    names = [n for n, s in x.SERIALIZED_ATTRS] + ['hash', 'data_hash', 'is_pruned', 'is_fully_pruned', 'brand_new']
    for n in names:
        for v in (0, 3, b'x' * 32, None, True):
            r = env.call(setattr, y, n, v)
            env.check(not r.ok and r.raised(TypeError), 'assigning %s is refused' % n)
        r = env.call(delattr, y, n)
        env.check(not r.ok and r.raised(TypeError), 'deleting %s is refused' % n)
    env.check(env.eq(y.serialize(), ser0), 'serialization unchanged')
    env.check(env.eq(y.hash, x.hash), 'hash unchanged')
    if h0 is not None: env.check(env.eq(y.hash, h0), 'hash unchanged')
    for n, s in x.SERIALIZED_ATTRS: env.check(_pm.same(env, t, getattr(y, n), getattr(x, n)) if not isinstance(getattr(x, n), t.P.Proof) else getattr(y, n) == getattr(x, n), 'value unchanged')
    env.check(env.eq(x.serialize(), ref), 'original unchanged')
    env.reach('done')

def mmr(env, n):
    M = mmr_type(env)
    vals = [env.int('v%d' % i, 0, 0xffff) for i in range(n)]
    m = M(vals)
    ser = m.serialize(); h = m.hash
    def setit(i): m[i] = 3
    def delit(i): del m[i]
    for i in list(range(-n - 1, n + 1)) + [slice(None), slice(0, 1)]:
        for f in (setit, delit):
            r = env.call(f, i)
            env.check(not r.ok and r.raised(TypeError), 'item assignment and deletion are refused')
    w = env.int('w', 0, 0xffff)
    a = m.append(w); b = m.extend([w, w]); c = m[1:]; d = m.extend([])
    env.check(len(a) == n + 1 and len(b) == n + 2, 'new structures are returned')
    env.check(env.land(len(m) == n, env.eq(list(m), vals), env.eq(m.serialize(), ser), env.eq(m.hash, h)), 'the original is unchanged')
    env.check(env.land(env.eq(list(a), vals + [w]), env.eq(list(b), vals + [w, w])), 'and the new ones have the new contents')
    env.reach('done')

def tree(env, n):
    M = tree_type(env)
    ks = [key(env, i) for i in range(n)]
    vals = [env.int('v%d' % i, 1, 127) for i in range(n)]
    m = M(list(zip(ks, vals)))
    ser = m.serialize(); h = m.hash; items = list(m.items()); ln = len(m)
    k = key(env, 99); w = env.int('w', 1, 127)
    m.put(k, w)
    env.call(m.remove, k)
    for q in ks: env.call(m.remove, q)
    for q in ks: m.put(q, w)
    env.check(env.land(len(m) == ln, env.eq(m.serialize(), ser), env.eq(m.hash, h), env.eq(items, list(m.items()))), 'the original is unchanged')
    r = env.call(lambda: m.__setitem__(k, w))
    env.check(not r.ok, 'no item assignment')
    env.reach('done')

def cases(tier):
    cs = []
    for k in ['foo', 'bar', 'plain5', 'plain8', 'deep', 'vempty', 'vleaf', 'vinner', 'vdeep', 'holdfoo', 'holdbar']:
        for f in ('fresh', 'hashed', 'pruned', 'partial', 'received'): cs.append(dict(name='attrs_%s_%s' % (k, f), fn='attrs', args=dict(kind=k, form=f), reach=['done']))
    for n in range(0, 8 if tier == 'thorough' else 6): cs.append(dict(name='mmr_%d' % n, fn='mmr', args=dict(n=n), reach=['done']))
    for n in range(0, 4 if tier == 'thorough' else 3): cs.append(dict(name='tree_%d' % n, fn='tree', args=dict(n=n), reach=['done'], weight=n * 10))
    return cs
