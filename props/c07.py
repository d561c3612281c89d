"""C07 hashes commit to type and attributes"""
from props import _pm
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits', 'proofchains.core.bitcoin', 'proofchains.core.uniquebits.singleuseseal']
BOUNDS = 'all pairs of the structure kinds of _pm and of the seal and outpoint proofs, all attribute values symbolic (for kinds with more than two integers one integer at a time is unrestricted and the others one-byte, 1..127); every way of pruning listed'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def pair(env, k1, k2, wide):
    t = _pm.types(env); t.wide = wide
    x = _pm.make(env, t, k1, 'x.'); y = _pm.make(env, t, k2, 'y.')
    eq = x.__class__ is y.__class__ and _pm.same(env, t, x, y)
    env.check(env.iff(env.eq(x.hash, y.hash), eq), 'equal hashes exactly for the same type and attributes')
    env.check(env.iff(x == y, eq), 'equality is equality of hashes'); env.check(env.iff(x != y, env.lnot(eq)), 'inequality')
    env.check(len(x.hash) == 32, 'size')
    env.reach('done')

def variants(env, kind, wide):
    """however obtained, the hash is the same"""
    t = _pm.types(env); t.wide = wide
    x = _pm.make(env, t, kind)
    c = _pm.decl(t, kind)
    p = x.prune()
    env.check(env.eq(p.hash, x.hash), 'pruned before the hash was ever computed')
    h = x.hash
    forms = [x.prune(), x.prune().prune(), c.deserialize(x.serialize()), c.deserialize(x.serialize()).prune()]
    for path, isp in _pm.nodes(t, x):
        q = x.prune(); _pm.get(q, path); forms.append(q)
        q = x.prune(); _pm.get(q, path); forms.append(c.deserialize(q.serialize()))
        q = x.prune(); _pm.get(q, path); forms.append(q.prune())
        q = c.deserialize(x.serialize()).prune(); _pm.get(q, path); forms.append(c.deserialize(q.serialize()).prune())
    full = x.prune()
    for path, isp in _pm.nodes(t, x): _pm.get(full, path)
    forms += [full, c.deserialize(full.serialize()), c.deserialize(x.prune().serialize()), c.deserialize(x.prune().serialize()).prune()]
    for i, f in enumerate(forms):
        env.check(env.eq(f.hash, h), 'form %d has the hash' % i)
        env.check(env.land(f == x, x == f), 'form %d is equal' % i)
    env.check(env.eq(x.hash, h) and env.eq(x.hash, t.P.Proof.get_hash(x)), 'stable')
    env.reach('done')

def rebuilt(env, kind):
    """building a structure around a pruned child gives the same hash"""
    t = _pm.types(env)
    x = _pm.make(env, t, kind)
    for n, ser in x.SERIALIZED_ATTRS:
        v = getattr(x, n)
        if isinstance(v, t.P.Proof):
            kw = {m: getattr(x, m) for m, s in x.SERIALIZED_ATTRS}
            kw[n] = v.prune()
            y = t.P.Proof.__new__(x.__class__, **kw)
            env.check(env.eq(y.hash, x.hash), 'with a pruned %s' % n)
    env.reach('done')

def seal(env, k1, k2):
    """the library's own proof types"""
    U = env.mod('proofchains.core.uniquebits.singleuseseal'); B = env.mod('proofchains.core.bitcoin'); C = env.mod('bitcoin.core')
    def mk(k, p):
        if k == 'fake': return U.FakeSingleUseSeal(committed_hash=env.bytes(p + 'd', 32))
        if k == 'fakew': return U.FakeSealWitness(seal=mk('fake', p))
        if k == 'seal': return U.BitcoinSingleUseSeal(outpoint=C.COutPoint(env.bytes(p + 'h', 32), env.int(p + 'n', 0, 0xffffffff)), nonce=env.bytes(p + 'nonce', 16))
        tx = B.TxProof(tx=C.CTransaction([C.CTxIn(C.COutPoint(env.bytes(p + 'h', 32), env.int(p + 'n', 0, 0xffffffff)))], [C.CTxOut(env.int(p + 'v', 0, 21 * 10**14), C.CScript(env.bytes(p + 's', 2)))] , env.int(p + 'lt', 0, 0xffffffff)))
        if k == 'tx': return tx
        if k == 'out': return B.OutPointProof(txproof=tx, n=env.int(p + 'i', 0, 0xffffffff))
        if k == 'txin': return B.TxInProof(txproof=tx, i=env.int(p + 'i', 0, 0xffffffff))
        if k == 'txout': return B.TxOutProof(txproof=tx, i=env.int(p + 'i', 0, 0xffffffff))
        if k == 'wit': return U.BitcoinSealWitness(seal=mk('seal', p + 's.'), txinproof=B.TxInProof(txproof=tx, i=0), txoutproof=B.TxOutProof(txproof=tx, i=env.int(p + 'i', 0, 0xffffffff)))
    def con(v):
        out = []
        for n, s in v.SERIALIZED_ATTRS:
            a = getattr(v, n)
            if hasattr(a, 'SERIALIZED_ATTRS'): out += con(a)
            elif isinstance(a, C.COutPoint): out += [a.hash, a.n]
            elif isinstance(a, C.CTransaction): out += [a.vin[0].prevout.hash, a.vin[0].prevout.n, a.vout[0].nValue, bytes(a.vout[0].scriptPubKey), a.nLockTime]
            else: out.append(a)
        return out
    x = mk(k1, 'x.'); y = mk(k2, 'y.')
    eq = k1 == k2 and env.land(*[env.eq(a, b) for a, b in zip(con(x), con(y))])
    env.check(env.iff(env.eq(x.hash, y.hash), eq), 'equal hashes exactly for the same type and contents')
    env.check(env.iff(x == y, eq), 'equality')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    kinds = ['foo', 'foo2', 'bar', 'plain0', 'plain5', 'plain8', 'plain11', 'deep', 'vempty', 'vlast', 'vleaf', 'vinner', 'vdeep', 'holdfoo', 'holdbar']
    cs = []
    for i, a in enumerate(kinds):
        for b in kinds[:i + 1]:
            small = len(_pm.ints(a)) <= 2 and len(_pm.ints(b)) <= 2 or {a, b} == {'foo', 'bar'}
            ws = [None] if small else _pm.splits(a) if a == b else [[], _pm.ints(a)[:1] + _pm.ints(b)[:1], _pm.ints(a)[-1:] + _pm.ints(b)[-1:]]
            for j, w in enumerate(ws): cs.append(dict(name='pair_%s_%s_%d' % (a, b, j), fn='pair', args=dict(k1=a, k2=b, wide=w), reach=['done']))
        if a != 'foo2':
            for j, w in enumerate(_pm.splits(a)): cs.append(dict(name='forms_%s_%d' % (a, j), fn='variants', args=dict(kind=a, wide=w), reach=['done']))
    runs = ['runs1200', 'runs2100', 'runs0300', 'runs3000', 'runs1179', 'runs1197', 'runs2079', 'runs0088']
    for i, a in enumerate(runs):
        for b in runs[:i + 1]: cs.append(dict(name='pair_%s_%s' % (a, b), fn='pair', args=dict(k1=a, k2=b, wide=None), reach=['done']))
        cs.append(dict(name='forms_' + a, fn='variants', args=dict(kind=a, wide=None), reach=['done']))
    for a in ('bar', 'deep', 'vinner', 'vdeep', 'holdfoo', 'holdbar'): cs.append(dict(name='rebuilt_' + a, fn='rebuilt', args=dict(kind=a)))
    sk = ['fake', 'fakew', 'seal', 'out', 'txin', 'txout', 'wit', 'tx']
    for i, a in enumerate(sk):
        for b in sk[:i + 1]:
            if 'tx' in (a, b) and a != b: continue   # a TxProof hash is a plain transaction id under a pad: not comparable under an ideal hash
            cs.append(dict(name='seal_%s_%s' % (a, b), fn='seal', args=dict(k1=a, k2=b), reach=['done']))
    return cs
