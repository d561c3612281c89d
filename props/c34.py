"""C34 script verification"""
from props import _tx, _sig, _script, _eval
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core.serialize', 'bitcoin.core._bignum', 'bitcoin.core.scripteval', 'bitcoin.core.key']
BOUNDS = 'all signature scripts and output scripts of up to 3 operations together (thorough 5) over a set with every kind of operation, all data; pay-to-script-hash outputs with any hash and redeem scripts of up to 2 operations (thorough 3), with and without the flag, pushes of every form, non-push and malformed signature scripts; signature checks against output and redeem scripts; referenced transactions of 0..3 outputs with any outpoint and input index'
ASSUMPTIONS = ['SHA-256, SHA-1 and RIPEMD-160 are ideal injective functions', 'the verdict of the elliptic-curve library is an arbitrary predicate of key, digest and signature (its native code is not encoded)']

def push_only(s):
    ops, part, good = _script.parse(s)
    return good and all([o[0] <= 0x60 for o in ops])

def p2sh_form(s): return len(s) == 23 and s[0] == 0xa9 and s[1] == 20 and s[22] == 0x87

def reference(env, sig, pub, p2sh, t=None, i=0):
    S = lambda s: None if t is None else _sig.Sigs(env, t, i, s)
    st = _eval.run(env, sig, [], S(sig))
    if st is None: return False
    copy = list(st)
    st = _eval.run(env, pub, st, S(pub))
    if st is None or not st or not _eval.truth(st[-1]): return False
    if p2sh and p2sh_form(pub):
        if not push_only(sig): return False
        redeem = copy.pop()
        st = _eval.run(env, redeem, copy, S(redeem))
        if st is None or not st or not _eval.truth(st[-1]): return False
    return True

def verify(env, sig, pub, flagname, t=None, i=0):
    E = env.mod('bitcoin.core.scripteval'); S = env.mod('bitcoin.core.script'); C = env.mod('bitcoin.core')
    flags = {'none': (), 'p2sh': (E.SCRIPT_VERIFY_P2SH,), 'set': {E.SCRIPT_VERIFY_P2SH, E.SCRIPT_VERIFY_STRICTENC}, 'other': (E.SCRIPT_VERIFY_STRICTENC, E.SCRIPT_VERIFY_NOCACHE, E.SCRIPT_VERIFY_EVEN_S), 'library': (S.SCRIPT_VERIFY_P2SH,), 'default': None}[flagname]
    want = reference(env, sig, pub, flagname in ('p2sh', 'set', 'library'), t, i)
    a = (S.CScript(sig), S.CScript(pub), t, i)
    r = env.call(E.VerifyScript, *a) if flags is None else env.call(E.VerifyScript, *a, flags=flags)
    env.check(r.ok or r.raised(C.ValidationError), 'a validation error')
    env.check(r.ok == want, 'verified exactly when the rules say so')
    env.reach('ok' if r.ok else 'fails')

SIG = [0, 1, 0x51, 0x4f, 0x76, 0x6a, 0x63, 0x68, 0x61]
PUB = [0, 1, 0x51, 0x75, 0x76, 0x87, 0x69, 0x74, 0x6a, 0x63, 0x67, 0x68, 0x6b, 0x6c, 0x91, 0x93, 0xa9, 0x7e]
def programs(env, a, b, flagname):
    def prog(p, n, ops):
        out = b''
        for k in range(n):
            o = ops[env.choice('%s%d' % (p, k), len(ops))]
            out = out + bytes([o]) + (env.bytes('%sd%d' % (p, k), 1) if o == 1 else b'')
        return out
    verify(env, prog('sig', a, SIG), prog('pub', b, PUB), flagname)

def top(env, n):
    "every top element of n bytes"
    verify(env, _script.push(env.bytes('d', n)), b'\x61', 'none')

RED = [0, 1, 0x51, 0x75, 0x76, 0x87, 0x6a, 0x61, 0x63, 0x74, 0xff]
def p2sh(env, n, flagname, form, pre):
    """a redeem script of n operations; form: how the signature script pushes it"""
    red = b''
    for k in range(n):
        o = RED[env.choice('r%d' % k, len(RED))]
        red = red + bytes([o]) + (env.bytes('rd%d' % k, 1) if o == 1 else b'')
    sig = {'none': b'', 'one': b'\x01' + env.bytes('x', 1), 'nop': b'\x01' + env.bytes('y', 1) + b'\x61', 'reserved': b'\x00\x63\x50\x68', 'n': b'\x51', 'many': b'\x51\x00\x01' + env.bytes('w', 1) + b'\x52\x53'}[pre]
    m = len(red)
    sig = sig + {'push': bytes([m]) + red, 'd1': b'\x4c' + bytes([m]) + red, 'd2': b'\x4d' + bytes([m, 0]) + red, 'd4': b'\x4e' + bytes([m, 0, 0, 0]) + red, 'dup': bytes([m]) + red + b'\x76', 'cut': bytes([m + 1]) + red}[form]
    h = env.bytes('h', 20)
    verify(env, sig, b'\xa9\x14' + h + b'\x87', flagname)

def almost(env, k, flagname):
    "output scripts that differ from the pay-to-script-hash form in one place"
    h = env.bytes('h', 20)
    b = [b'\xa9\x14' + h + b'\x87\x61', b'\xa9\x4c\x14' + h + b'\x87', b'\x61\xa9\x14' + h + b'\x87', b'\xa9\x14' + h + b'\x88\x51', b'\xaa\x20' + env.bytes('g', 32) + b'\x87', b'\xa6\x14' + h + b'\x87'][k]
    red = bytes([env.int('op', 0x4f, 0x6a)])
    verify(env, b'\x51\x01' + red, b, flagname)

def checks(env, form, flagname, sl):
    "signature checks in output and redeem scripts commit to that script"
    _sig.patch(env)
    t = _tx.tx(env, 't', 1, 1, 1, 1)
    sig = env.bytes('sig', sl - 1) + b'\x01' if sl else b''
    pub = env.bytes('pub', 2)
    if form == 'p2pk': verify(env, _script.push(sig), b'\x02' + pub + b'\xac', flagname, t)
    elif form == 'p2pkh': verify(env, _script.push(sig) + b'\x02' + pub, b'\x76\xa9\x14' + env.bytes('h', 20) + b'\x88\xac', flagname, t)
    elif form == 'multi': verify(env, b'\x00' + _script.push(sig) + b'\x02' + env.bytes('sig2', 1) + b'\x02', b'\x52\x02' + pub + b'\x02' + env.bytes('pub2', 2) + b'\x52\xae', flagname, t)
    elif form == 'p2sh':
        red = b'\x02' + pub + b'\xac'
        verify(env, _script.push(sig) + _script.push(red), b'\xa9\x14' + env.bytes('h', 20) + b'\x87', flagname, t)
    elif form == 'insig': verify(env, _script.push(sig) + b'\x02' + pub + b'\xac', b'\x61', flagname, t)
    elif form == 'sep': verify(env, _script.push(sig), b'\x61\xab\x02' + pub + b'\xac', flagname, t)

def signature(env, nin, nout, from_coinbase=True):
    """verification of an input against the transaction it refers to"""
    E = env.mod('bitcoin.core.scripteval'); C = env.mod('bitcoin.core')
    pubs = [env.bytes('pub%d' % k, 1) for k in range(nout)]
    for b in pubs: env.assume(env.lor(*[b[0] == o for o in (0x51, 0x00, 0x61, 0x6a, 0x91)]))
    f = C.CTransaction([C.CTxIn(C.COutPoint(bytes(32), 0xffffffff if from_coinbase else 0))], [C.CTxOut(env.int('v%d' % k, 0, 2**50), _tx.script(env, b)) for k, b in enumerate(pubs)])
    t = C.CTransaction([C.CTxIn(C.COutPoint(env.bytes('h%d' % k, 32), env.int('n%d' % k, 0, 2**32 - 1)), _tx.script(env, env.bytes('s%d' % k, 1))) for k in range(nin)], [C.CTxOut(1)])
    for i in t.vin: env.assume(env.lor(*[i.scriptSig[0] == o for o in (0x51, 0x00, 0x61, 0x6a)]))
    i = env.choice('i', nin + 3) - 1
    want = False
    if 0 <= i < nin:
        x = t.vin[i]
        if x.prevout.n < nout and x.prevout.hash == _tx.sha2(_tx.ref_ser(f)): want = reference(env, bytes(x.scriptSig), pubs[env.concrete(x.prevout.n)], False)
    r = env.call(E.VerifySignature, f, t, i)
    env.check(r.ok or r.raised(C.ValidationError), 'a validation error')
    env.check(r.ok == want, 'verified exactly when the input spends the output')
    env.reach('ok' if r.ok else 'fails')

def cases(tier):
    T = tier == 'thorough'
    cs = []
    big = dict(case_s=3000, max_paths=10**6)
    for f in ('none', 'p2sh', 'other', 'default') if T else ('none', 'p2sh'):
        for a in range(0, 4 if T else 3):
            for b in range(0, 4 if T else 3):
                if a + b > (5 if T else 3): continue
                cs.append(dict(name='prog_%s_%d_%d' % (f, a, b), fn='programs', args=dict(a=a, b=b, flagname=f), reach=['fails'] + (['ok'] if a + b else []), weight=9 ** (a + b), opts=big))
    for n in range(0, 6): cs.append(dict(name='top_%d' % n, fn='top', args=dict(n=n), reach=['fails'] + (['ok'] if n else [])))
    for f in ('none', 'p2sh', 'set', 'other', 'library', 'default'):
        on = f in ('p2sh', 'set', 'library')
        for n in range(0, 4 if T else 3):
            if n > 1 and f in ('set', 'other', 'library') and not T: continue
            for form in ('push', 'd1', 'd2', 'd4', 'dup', 'cut'):
                for pre in ('none', 'one', 'nop', 'reserved', 'n', 'many'):
                    if n > 1 and not T and (form not in ('push', 'd1') or pre in ('n', 'reserved', 'many') and form != 'push'): continue
                    if n > 2 and (form not in ('push',)): continue
                    cs.append(dict(name='p2sh_%s_%d_%s_%s' % (f, n, form, pre), fn='p2sh', args=dict(n=n, flagname=f, form=form, pre=pre), reach=['fails'] + (['ok'] if form != 'cut' and not (on and (form == 'dup' or pre in ('nop', 'reserved'))) and (not on or n or pre in ('one', 'n', 'many')) else []), weight=10 ** n, opts=big))
        for k in range(6): cs.append(dict(name='almost_%s_%d' % (f, k), fn='almost', args=dict(k=k, flagname=f), reach=['ok', 'fails']))
        for form in ('p2pk', 'p2pkh', 'multi', 'p2sh', 'insig', 'sep'):
            for sl in (0, 2): cs.append(dict(name='check_%s_%s_%d' % (form, f, sl), fn='checks', args=dict(form=form, flagname=f, sl=sl), reach=['fails'] + (['ok'] if sl or form == 'p2sh' and not on else []), weight=5))
    for nin in range(0, 3):
        for nout in range(0, 4 if T else 3): cs.append(dict(name='sig_%d_%d' % (nin, nout), fn='signature', args=dict(nin=nin, nout=nout, from_coinbase=bool((nin + nout) % 2)), reach=['fails'] + (['ok'] if nin and nout else []), weight=5))
    return cs
