"""C44 difficulty"""
PRELOAD = ['bitcoin', 'bitcoin.core']
BOUNDS = 'all 2^23 - 1 positive mantissas (symbolic) with every exponent from 0 to 34 (targets up to 256 bits and beyond); static function and header attribute'
ASSUMPTIONS = ['floats are exact rationals with a counted number of relative roundings of 2^-53; the check is for equality up to those roundings (at most 16)']

def difficulty(env, lo, hi):
    C = env.mod('bitcoin.core')
    m = env.int('mantissa', 1, 0x7fffff)
    x = env.concrete(env.int('exponent', lo, hi))
    n = (x << 24) | m
    r = env.call(C.CBlockHeader.calc_difficulty, n)
    env.check(r.ok, 'a difficulty')
    # target of difficulty 1 over the target of n
    env.check(env.near(r.value, 0xffff, m, 8 * (29 - x)), 'the ratio of the targets')
    h = C.CBlockHeader(nBits=n)
    env.check(env.near(h.difficulty, 0xffff, m, 8 * (29 - x)), 'of the header as well')
    for k in (0x1b0404cb, 0x1d00ffff, 0x207fffff):
        env.check(env.near(C.CBlockHeader.calc_difficulty(k), 0xffff, k & 0xffffff, 8 * (29 - (k >> 24))), 'concrete')
    env.reach('done')

def cases(tier):
    return [dict(name='exponents_%d' % i, fn='difficulty', args=dict(lo=i, hi=min(i + 15, 34)), reach=['done']) for i in range(0, 48, 16)]
