"""C27 compact targets and proof of work"""
PRELOAD = ['bitcoin', 'bitcoin.core', 'bitcoin.core.serialize']
BOUNDS = 'all 2^32 compact values (each of the 256 exponents with a symbolic mantissa); all 256-bit hashes; mainnet, testnet and regtest'

def compact(c, m):
    """(value, magnitude bits): mantissa m (24 bits, bit 23 the sign) scaled by the exponent"""
    v = m & 0x7fffff
    v = v >> (8 * (3 - c)) if c < 3 else v << (8 * (c - 3))
    return v

LIMIT = dict(mainnet=2**224 - 1, testnet=2**224 - 1, regtest=2**255 - 1)

def select(env, net):
    B = env.mod('bitcoin'); C = env.mod('bitcoin.core')
    env.patch(B, 'params', B.params); env.patch(C, 'coreparams', C.coreparams)
    B.SelectParams(net)

def decode(env, e):
    S = env.mod('bitcoin.core.serialize')
    m = env.int('mantissa', 0, 0xffffff)
    v = S.uint256_from_compact((e << 24) | m)
    w = compact(e, m)
    if m < 0x800000: env.check(env.eq(v, w), 'mantissa scaled by the exponent'); env.reach('positive')
    else: env.check(env.eq(v, -w), 'negative with the sign bit'); env.reach('negative')

def pow(env, e, net):
    C = env.mod('bitcoin.core')
    select(env, net)
    m = env.int('mantissa', 0, 0xffffff)
    h = env.bytes('hash', 32)
    r = env.call(C.CheckProofOfWork, h, (e << 24) | m)
    env.check(r.ok or r.raised(C.CheckProofOfWorkError) and r.raised(C.ValidationError), 'no other error')
    n = sum([b << (8 * i) for i, b in enumerate(h)])
    w = compact(e, m)
    env.check(env.iff(r.ok, env.land(m < 0x800000, w > 0, w <= LIMIT[net], n <= w)), 'passes exactly when the target is in range and reached')
    env.reach('ok' if r.ok else 'refused')

def number(env):
    S = env.mod('bitcoin.core.serialize')
    h = env.bytes('h', 32)
    env.check(env.eq(S.uint256_from_str(h), sum([b << (8 * i) for i, b in enumerate(h)])), 'little-endian')
    env.reach('done')

def params(env):
    C = env.mod('bitcoin.core')
    for net in ('mainnet', 'testnet', 'regtest'):
        select(env, net)
        env.check(C.coreparams.PROOF_OF_WORK_LIMIT == LIMIT[net] and C.coreparams.NAME == net, 'limit of the network')
        env.check(env.call(C.CheckProofOfWork, C.coreparams.GENESIS_BLOCK.GetHash(), C.coreparams.GENESIS_BLOCK.nBits).ok, 'its first block passes')
    env.reach('done')

def cases(tier):
    T = tier == 'thorough'
    cs = [dict(name='decode_%d' % e, fn='decode', args=dict(e=e), reach=['positive', 'negative']) for e in range(256)]
    for net in ('mainnet', 'testnet', 'regtest'):
        for e in range(256) if T or net == 'mainnet' else list(range(0, 37)) + [40, 64, 127, 128, 129, 254, 255]:
            ok = 1 <= e <= (29 if net != 'regtest' else 32) + 0
            cs.append(dict(name='pow_%s_%d' % (net, e), fn='pow', args=dict(e=e, net=net), reach=['refused'] + (['ok'] if ok else []), weight=2))
    return cs + [dict(name='number', fn='number', reach=['done']), dict(name='params', fn='params', reach=['done'])]
