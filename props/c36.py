"""C36 single and multi signature checks"""
from props import _tx, _sig, _script, _eval
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize', 'bitcoin.core._bignum', 'bitcoin.core.scripteval', 'bitcoin.core.key']
BOUNDS = 'up to 7 keys and as many signatures (thorough 8, and 10, 15 and 20 keys with 1..3 and all signatures) with every relation of which signature is valid for which key; signatures of 0..3 symbolic bytes, any hash type in single checks and in one-of-one and one-of-two checks; key and signature counts of any value in encodings of 0..3 bytes; code separators and occurrences of the signature in the script; input index inside and outside the transaction; transactions of two inputs and up to two outputs'
ASSUMPTIONS = ['SHA-256 is an ideal injective function', 'the verdict of the elliptic-curve library is an arbitrary predicate of key, digest and signature (its native code is not encoded)']

def single(env, sl, pl, i, nout, form):
    _sig.patch(env)
    t = _sig.tx(env, 2, nout)
    sig = env.bytes('sig', sl); pub = env.bytes('pub', pl)
    op = bytes([0xac + env.choice('op', 2)])
    s = {'plain': op, 'sep': b'\x61\xab\x61' + op + b'\xab', 'seps': b'\x51\xab\x75\xab\x61' + op, 'skipped': b'\x00\x63\xab\x68\x61' + op, 'inside': op + b'\x75\x02' + env.bytes('d0', 2), 'data': b'\x01\xab\x75' + op,
         'cut': op + b'\x05\x01', 'before': b'\x02' + env.bytes('d', 2) + b'\x75\xab\x02' + env.bytes('e', 2) + b'\x75' + op}[form]
    r, want = _eval.compare(env, s, [b'\x07', sig, pub], _sig.Sigs(env, t, i, s))
    env.reach('ok' if r.ok else 'fails')

def multi(env, n, m, lens, klen, form, ht, i=0, nout=2):
    """lens: signature lengths; ht: hash type of every signature, or None for any"""
    _sig.patch(env)
    t = _sig.tx(env, 2, nout)
    sigs = [b'' if l == 0 else env.bytes('sig%d' % k, l) if ht is None else env.bytes('sig%d' % k, l - 1) + bytes([ht]) for k, l in enumerate(lens)]
    keys = [env.bytes('key%d' % k, klen) for k in range(n)]
    op = bytes([0xae + env.choice('op', 2)])
    s = {'plain': op, 'sep': b'\x61\xab' + op + b'\xab', 'inside': op + b'\x75\x02' + env.bytes('d', 2) + b'\x75'}[form]
    st = [b'\x05', env.bytes('dummy', 1)] + sigs[::-1] + [_script.num(m)] + keys[::-1] + [_script.num(n)]
    r, want = _eval.compare(env, s, st, _sig.Sigs(env, t, i, s))
    env.reach('ok' if r.ok else 'fails')

def counts(env, nl, ml, depth):
    """key and signature counts of any value in any encoding, over a stack of a given depth"""
    _sig.patch(env)
    t = _sig.tx(env)
    keys = [b'k%d' % k for k in range(2)]
    n = env.bytes('n', nl); m = env.bytes('m', ml)
    st = [b's' + bytes([k, 1]) for k in range(depth)] + [m] + keys + [n]
    r, want = _eval.compare(env, b'\xae', st, _sig.Sigs(env, t, 0, b'\xae'))
    env.reach('ok' if r.ok else 'fails')

def dupkeys(env):
    "the same key twice, the same signature twice"
    _sig.patch(env)
    t = _sig.tx(env)
    k = env.bytes('k', 1); k2 = env.bytes('k2', 1); s = env.bytes('s', 1) + b'\x01'
    st = [b'', s, s, b'\x02', [k, k2][env.choice('w', 2)], k, b'\x02']
    r, want = _eval.compare(env, b'\xae', st, _sig.Sigs(env, t, 0, b'\xae'))
    env.reach('ok')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for sl in (0, 1, 2, 3):
        for pl in (0, 1, 33):
            for f in ('plain', 'sep', 'seps', 'skipped', 'inside', 'data', 'cut', 'before'):
                for i, no in ((0, 2), (1, 1), (2, 2)) if T or f in ('plain', 'inside') else ((0, 2),):
                    cs.append(dict(name='single_%d_%d_%s_%d_%d' % (sl, pl, f, i, no), fn='single', args=dict(sl=sl, pl=pl, i=i, nout=no, form=f), reach=['fails'] if f == 'cut' else ['ok', 'fails'], weight=2))
    for n in list(range(0, 9 if T else 8)):
        for m in range(0, n + 1): cs.append(dict(name='multi_%d_of_%d' % (m, n), fn='multi', args=dict(n=n, m=m, lens=[2] * m, klen=1, form='plain', ht=1), reach=['ok'] + (['fails'] if m else []), weight=2 ** n, opts=dict(case_s=3000, max_paths=10**6)))
    for n, m in [(n, m) for n in (10, 15, 20) for m in (1, 2, 3)] if T else [(20, 1), (10, 2)]: cs.append(dict(name='many_%d_of_%d' % (m, n), fn='multi', args=dict(n=n, m=m, lens=[2] * m, klen=1, form='plain', ht=1), reach=['ok', 'fails'], weight=99, opts=dict(case_s=3000, max_paths=10**6)))
    for n in range(1, 5 if T else 4):
        for m in range(1, n + 1):
            for f in ('sep', 'inside'): cs.append(dict(name='multi_%s_%d_of_%d' % (f, m, n), fn='multi', args=dict(n=n, m=m, lens=[2] * m, klen=2, form=f, ht=0x83), reach=['ok', 'fails'], weight=2 ** n, opts=dict(case_s=3000, max_paths=10**6)))
            for z in range(m): cs.append(dict(name='multi_empty%d_%d_of_%d' % (z, m, n), fn='multi', args=dict(n=n, m=m, lens=[0 if j == z else 2 for j in range(m)], klen=1, form='plain', ht=1), reach=['ok', 'fails'], weight=2 ** n))
    for n, m in ((1, 1), (2, 1)) + (((2, 2),) if T else ()):
        for l in (1, 2):
            for i, no in ((0, 2), (1, 1), (2, 2)): cs.append(dict(name='multi_any_%d_of_%d_%d_%d_%d' % (m, n, l, i, no), fn='multi', args=dict(n=n, m=m, lens=[l] * m, klen=1, form='plain', ht=None, i=i, nout=no), reach=['ok', 'fails'], weight=10, opts=dict(case_s=3000, max_paths=10**6)))
    for nl in (0, 1, 2, 5):
        for ml in (0, 1, 2):
            for d in (0, 1, 2, 3, 4): cs.append(dict(name='counts_%d_%d_%d' % (nl, ml, d), fn='counts', args=dict(nl=nl, ml=ml, depth=d), reach=['fails'] if nl == 5 else [], weight=4))
    cs.append(dict(name='dup', fn='dupkeys', args={}, reach=['ok']))
    return cs
