"""C32 resource limits of script evaluation"""
from props import _eval, _script
PRELOAD = ['bitcoin.core', 'bitcoin.core.script', 'bitcoin.core._bignum', 'bitcoin.core.scripteval']
BOUNDS = 'script sizes 9997..10003 in several compositions; pushed elements of 518..523 bytes in every push form, executed or not; 196..206 counted operations in several compositions and 0..9 multi-signature checks with 0..20 keys (all counts for one check); stacks of 996..1004 elements built by pushes, duplications, the alternate stack and the initial stack; element contents symbolic'

class NoSigs:
    """zero-of-n multi-signature checks need no signature"""
    tx = None; i = 0
    def __init__(self, env): self.env = env
    def index(self, n): return self.env.concrete(n)
    def many(self, sigs, keys): return True
    def separator(self, p): pass

def run(env, script, stack, reach_fail=None):
    r, want = _eval.compare(env, script, stack, NoSigs(env))
    if not r.ok: env.obs('why', _eval.MSG['why'])
    env.reach('ok' if r.ok else 'fails: ' + _eval.MSG['why'])

def size(env, total, form):
    """scripts of a given size; form: of what they are made"""
    d = env.bytes('d', 3)
    if form == 'data':
        s = b''
        while total - len(s) > 900: s = s + b'\x4d\x08\x02' + d + bytes(517)
        s = s + b'\x4d\x2c\x01' + d + bytes(297)
        left = total - len(s)
        if left > 500: s = s + b'\x4d\x2c\x01' + d + bytes(297); left = total - len(s)
        s = s + (b'\x4d' + bytes([(left - 3) & 255, (left - 3) >> 8]) + bytes(left - 3) if left - 3 > 255 else b'\x4c' + bytes([left - 2]) + bytes(left - 2))
    elif form == 'unexecuted':
        s = b'\x00\x63' + (b'\x02' + d[:2]) * ((total - 3) // 3)
        s = s + b'\x51' * (total - 1 - len(s)) + b'\x68'
    else:
        k = total // 521 - 1
        s = (b'\x4d\x04\x02' + d + bytes(513) + b'\x75') * k
        while total - len(s) > 76: s = s + bytes([75]) + bytes(75)
        s = s + bytes([total - len(s) - 1]) + bytes(total - len(s) - 1)
    env.check(len(s) == total, 'size')
    run(env, s, [])

def element(env, form, n, executed):
    d = env.bytes_except('d', n, [0, 1, n - 1])
    p = [None, None, b'\x4d' + bytes([n & 255, n >> 8]), b'\x4e' + bytes([n & 255, n >> 8, 0, 0])][form] + d
    run(env, p if executed else b'\x00\x63' + p + b'\x68', [])

COUNTED = [0x61, 0x76, 0x8b, 0xa9, 0x75, 0xb0, 0xb9, 0x78, 0x74, 0x6b, 0x7c, 0xab]
def ops(env, n, form):
    st = [env.bytes('s%d' % j, 1) for j in range(2)]
    if form == 'nop': s = b'\x61' * n
    elif form == 'pushes': s = b'\x61\x51\x01\x07\x4f\x60\x75\x75\x75\x75' * (n // 5) + b'\x61' * (n % 5)
    elif form == 'hash': s = b'\xa9' + b'\x76\x75' * ((n - 1) // 2) + b'\x61' * ((n - 1) % 2)
    elif form == 'branch': s = b'\x63' + b'\x61' * 50 + b'\x67' + b'\xa9' * (n - 53) + b'\x68'
    elif form == 'skipped': s = b'\x00\x63' + b'\xac' * (n - 2) + b'\x68'
    elif form == 'reserved': s = b'\x00\x63' + b'\x50' * 300 + b'\x51' * 20 + b'\x61' * (n - 2) + b'\x68'
    elif form == 'one': s = b'\x61' * (n - 1) + bytes([COUNTED[env.choice('op', len(COUNTED))]])
    elif form == 'late': s = b'\x61' * (n - 1) + b'\x51' * 30 + b'\x00' * 30 + b'\x61'
    run(env, s, st)

def multisig(env, before, counts, after, verify):
    """zero-of-n checks"""
    st = [env.bytes('s0', 1)]
    s = b'\x61' * before
    for k, n in enumerate(counts):
        s = s + b'\x00\x00' + (b'\x02' + env.bytes('k%d' % k, 2)) * n + (bytes([0x50 + n]) if 0 < n < 17 else b'\x00' if n == 0 else bytes([1, n])) + (b'\xaf' if verify else b'\xae\x75')
    s = s + b'\x61' * after
    run(env, s, st)

def multisig_any(env, before):
    """one zero-of-n check, n symbolic"""
    st = [env.bytes('s0', 1)] + [b'', b''] + [env.bytes('k%d' % k, 1) for k in range(21)]
    n = env.bytes('n', 1)
    # keep only as many keys as there have to be: the signature count and the dummy lie below them
    c = env.concrete(n[0])
    if c <= 21: st = st[:3] + st[24 - c:]
    s = b'\x61' * before + b'\x01' + n + b'\xae'
    run(env, s, st)

def stack(env, form, n):
    st = [env.bytes('s%d' % j, 1) for j in range(3)]
    if form == 'push': s = b'\x51' * (n - 3)
    elif form == 'data': s = (b'\x01' + env.bytes('d', 1)) * (n - 3)
    elif form == 'initial': st = st + [b'\x01'] * (n - 3); s = b'\x61'
    elif form == 'initial empty': st = st + [b'\x01'] * (n - 3); s = b''
    elif form == 'initial drop': st = st + [b'\x01'] * (n - 3); s = b'\x75'
    elif form == 'initial drop push': st = st + [b'\x01'] * (n - 3); s = b'\x75\x51'
    elif form == 'dup': st = st + [b'\x01'] * (n - 23); s = b'\x76' * 20
    elif form == '3dup': st = st + [b'\x01'] * (n - 6); s = b'\x6f'
    elif form == '2dup': st = st + [b'\x01'] * (n - 5); s = b'\x6e'
    elif form == 'transient': st = st + [b'\x01'] * (n - 5); s = b'\x6e\x6d\x6d'
    elif form == 'alt': st = st + [b'\x01'] * (n - 13); s = b'\x6b' * 50 + b'\x51' * 10 + b'\x6c' * 50
    elif form == 'alt only': st = [b'\x02'] * 150; s = b'\x6b' * 150 + b'\x51' * (n - 150)
    elif form == 'alt down': st = st + [b'\x01'] * (n - 3 - 1); s = b'\x6b' * 30 + b'\x51' + b'\x75'
    elif form == 'depth': st = st + [b'\x01'] * (n - 4); s = b'\x74'
    elif form == 'skipped': st = st + [b'\x01'] * (n - 3); s = b'\x00\x63' + b'\x51' * 30 + b'\x68'
    elif form == 'ifdup': st = [b'\x01'] * (n - 2) + [env.bytes('c', 1)]; s = b'\x73'
    elif form == 'if': st = [b'\x01'] * (n - 1) + [env.bytes('c', 1)]; s = b'\x63' + b'\x51\x51' + b'\x67\x51\x68'
    elif form == 'tuck': st = st + [b'\x01'] * (n - 4); s = b'\x7d'
    run(env, s, st)

def cases(tier):
    T = tier == 'thorough'
    cs = []
    for n in range(9990 if T else 9997, 10011 if T else 10004):
        for f in ('data', 'unexecuted', 'drop'): cs.append(dict(name='size_%s_%d' % (f, n), fn='size', args=dict(total=n, form=f), reach=['ok'] if n <= 10000 else ['fails: script size'], weight=2))
    for n in range(500 if T else 518, 540 if T else 524):
        for f in (2, 3):
            for e in (True, False): cs.append(dict(name='element_%d_%d_%d' % (f, n, e), fn='element', args=dict(form=f, n=n, executed=e), reach=['ok' if n <= 520 else 'fails: element size']))
    for n in range(150 if T else 196, 260 if T else 207):
        for f in ('nop', 'pushes', 'hash', 'branch', 'skipped', 'reserved', 'one', 'late'): cs.append(dict(name='ops_%s_%d' % (f, n), fn='ops', args=dict(n=n, form=f), reach=['ok'] if n <= 201 and f in ('nop', 'hash', 'skipped', 'reserved', 'one', 'late') else ['fails: operations'] if n > 201 and f != 'branch' else []))
    for b in range(196, 203): cs.append(dict(name='msig1_%d' % b, fn='multisig_any', args=dict(before=b), reach=['fails: operations'] + (['ok'] if b < 201 else []), weight=3))
    for b in (170, 179, 180, 181): cs.append(dict(name='msig1_%d' % b, fn='multisig_any', args=dict(before=b), reach=['ok', 'fails: keys'], weight=3))
    combos = [[20] * 9, [20] * 8 + [16], [20] * 8 + [17], [20] * 8 + [15], [16] * 11, [1] * 60, [0] * 90, [0] * 20 + [3] * 20, [7, 0, 20, 3, 16, 1, 20]]
    for i, c in enumerate(combos):
        for v in (False, True):
            used = sum(c) + len(c) * (1 if v else 2)
            for extra in range(-3, 5):
                b = 201 - used + extra
                if b < 0: continue
                for split in (0, b // 2, b):
                    cs.append(dict(name='msig_%d_%d_%d_%d' % (i, v, extra, split), fn='multisig', args=dict(before=split, counts=c, after=b - split, verify=v), reach=['ok' if extra <= 0 else 'fails: operations'], weight=2))
    for f in ('push', 'data', 'initial', 'initial empty', 'initial drop', 'initial drop push', 'dup', '3dup', '2dup', 'transient', 'alt', 'alt only', 'alt down', 'depth', 'skipped', 'ifdup', 'if', 'tuck'):
        for n in range(980 if T else 997, 1020 if T else 1005): cs.append(dict(name='stack_%s_%d' % (f.replace(' ', '_'), n), fn='stack', args=dict(form=f, n=n), reach=[], weight=2))
    return cs
