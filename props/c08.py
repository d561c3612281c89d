"""C08 pruning keeps the hash and discloses what was accessed"""
from props import _pm
PRELOAD = ['proofmarshal.serialize', 'proofmarshal.proof', 'proofmarshal.bits']
BOUNDS = 'the structure kinds of _pm with symbolic contents (of several integers the first is unrestricted and the others one-byte), every subset of attribute accesses (every chain of attributes, in declaration and in reverse order), one and two generations of pruning, the first used or not'
ASSUMPTIONS = ['SHA-256 is an ideal injective function']

def access(env, kind, rev, gen):
    t = _pm.types(env)
    t.wide = None if len(_pm.ints(kind)) <= 1 else _pm.ints(kind)[:1]
    x = _pm.make(env, t, kind)
    c = _pm.decl(t, kind)
    before = x.serialize()
    allp = _pm.nodes(t, x)
    base = x
    if gen == 1: base = c.deserialize(before)      # pruning something that was received
    if gen >= 2: base = x.prune()                  # pruning something that is itself pruned
    if gen == 3:                                   # and has been used in part
        for path, isp in allp: _pm.get(base, path)
        used = base.serialize()
    p = base.prune()
    order = list(reversed(allp)) if rev else allp
    touched = []
    for path, isp in order:
        if env.bool('acc.' + '.'.join(path)):
            v = _pm.get(p, path)
            o = _pm.get(x, path)
            if isp: env.check(v.__class__ is o.__class__ and env.eq(v.hash, o.hash), 'accessed proof %s is the original' % (path,))
            else: env.check(_pm.same(env, t, v, o), 'accessed attribute %s has its original value' % (path,))
            touched.append(path)
    env.check(env.eq(p.hash, x.hash), 'hash after access')
    env.check(env.iff(p.is_fully_pruned, not touched), 'fully pruned exactly when nothing was accessed')
    y = c.deserialize(p.serialize())
    env.check(env.eq(y.hash, x.hash), 'hash of the received copy')
    env.check(env.eq(c.deserialize(y.serialize()).hash, x.hash), 'hash of the copy forwarded again')
    check(env, t, x, y, touched, ())
    if gen == 3: env.check(env.eq(base.serialize(), used), 'the copy pruned again is unaffected')
    env.check(not x.is_pruned and not x.is_fully_pruned and env.eq(x.serialize(), before), 'original unaffected')
    # the partly disclosed copy still gives the original values for everything else
    for path, isp in allp:
        v = _pm.get(p, path)
        o = _pm.get(x, path)
        env.check(env.eq(v.hash, o.hash) if isp else _pm.same(env, t, v, o), 'later access')
    env.check(env.eq(x.serialize(), before), 'original still unaffected')
    env.reach('none' if not touched else 'some')

def check(env, t, x, y, touched, here):
    """y, received, discloses the attributes of every structure into which there was an access, and nothing else"""
    opened = any(len(p) > len(here) and p[:len(here)] == here for p in touched)
    if not opened:
        # nothing inside was accessed; only a structure without attributes has nothing to hide
        env.check(y.is_fully_pruned and y.is_pruned, 'fully pruned')
        for n, ser in x.SERIALIZED_ATTRS:
            r = env.call(getattr, y, n)
            env.check(not r.ok and r.raised(t.P.PrunedError), 'attribute %s was not accessed' % n)
            env.check(r.exc.attr_name == n, 'the error names the attribute')
        return False
    whole = True
    for n, ser in x.SERIALIZED_ATTRS:
        v = getattr(y, n); o = getattr(x, n)
        if isinstance(o, t.P.Proof):
            env.check(v.__class__ is o.__class__ and env.eq(v.hash, o.hash), 'sub-proof')
            whole &= check(env, t, o, v, touched, here + (n,))
        else:
            env.check(_pm.same(env, t, o, v), 'disclosed value')
    r = env.call(getattr, y, 'no_such_attribute')
    env.check(not r.ok and r.raised(AttributeError), 'unknown attributes stay unknown')
    env.check(not y.is_fully_pruned and y.is_pruned == (not whole), 'reported as pruned exactly when something below it is missing')
    return whole

def received(env, kind):
    """a fully pruned structure of a type never used before in this process"""
    t = _pm.types(env)
    c = getattr(t, kind)
    d = env.bytes('d', 32)
    head = bytes([0xff])
    if kind[0] == 'V':
        i = [k.__name__ for k in t.Var.UNION_CLASSES].index(kind)
        y = t.Var.deserialize(head + bytes([i]) + d)
        env.check(y.__class__ is c, 'variant')
    else:
        y = c.deserialize(head + d)
    env.check(y.is_pruned and y.is_fully_pruned and env.eq(y.data_hash, d), 'pruned')
    for n, ser in c.SERIALIZED_ATTRS:
        r = env.call(getattr, y, n)
        env.check(not r.ok and r.raised(t.P.PrunedError), 'pruned error')
    r = env.call(getattr, y, 'other')
    env.check(not r.ok and r.raised(AttributeError), 'unknown attribute')
    env.check(env.eq(y.hash, c.HASHTAG(d).digest()), 'hash from the digest')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for k in ['foo', 'bar', 'plain5', 'plain8', 'vempty', 'vlast', 'vleaf', 'vinner', 'holdfoo', 'holdbar', 'vdeep', 'deep']:
        big = k == 'deep'
        for rev in (0, 1):
            for gen in (0, 1, 2, 3):
                if big and not T and (rev or gen): continue
                cs.append(dict(name='access_%s_%d_%d' % (k, rev, gen), fn='access', args=dict(kind=k, rev=rev, gen=gen), reach=['none', 'some'] if k not in ('vempty', 'vlast') else ['none'], weight=99 if big else 1))
    for k in ('Foo', 'Bar', 'Plain', 'Deep', 'Holder', 'VEmpty', 'VLast',  'VLeaf', 'VInner'): cs.append(dict(name='received_' + k, fn='received', args=dict(kind=k), reach=['done']))
    return cs
