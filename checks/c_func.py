# Functional properties: the library against independent reference implementations.
from . import core, check, q, with_selftest, ALGS, PYALG, HAS_NI
import hashlib, os
from concurrent.futures import ThreadPoolExecutor
Job = core.Job


def prefix(p): return {'VH_PREFIX': p}


def big_wants(total):
    """Expected digests of the long message, by hashlib."""
    unit = bytearray(1 << 20)
    for i in range(1 << 20): unit[i] = (i * 167 + (i >> 8) * 13 + (i >> 16)) & 255
    unit = bytes(unit)
    def one(a):
        h = hashlib.new(PYALG[a]); n = total
        while n > 0: h.update(unit[:n] if n < len(unit) else unit); n -= len(unit)
        return h.hexdigest()
    with ThreadPoolExecutor(7) as ex: return list(ex.map(one, range(7)))


@check('C01')
def c01(ctx):
    jobs = [Job('hash.%s' % PYALG[a], 'd_hash.cpp', defs=['ALG=%d' % a], env=prefix('C01.')) for a in range(7)]
    with_selftest(ctx, jobs + huge_jobs('C01', range(7)))
    total = (1 << 32) + (1 << 20) * 3 + 61
    wants = big_wants(total)
    ctx.count('long_message_bytes_per_backend', total)
    jobs = []
    for a in range(7):
        runs = []
        for be in ['any', 'sw'] + (['ni'] if HAS_NI[a] else []):
            if be == 'sw' and not core.THOROUGH and not HAS_NI[a]: continue   # 'any' is the portable code there
            runs.append(('.big.' + be, dict(BIG_TOTAL=str(total), BIG_CHUNK=str(1 << 40 if be != 'ni' else (1 << 32) - 64), BIG_WANT=wants[a], BIG_BACKEND=be), []))
            if core.THOROUGH: runs.append(('.bigchunk.' + be, dict(BIG_TOTAL=str(total), BIG_CHUNK='65521', BIG_WANT=wants[a], BIG_BACKEND=be), []))
        for r in runs: jobs.append(Job('hashbig.%s%s' % (PYALG[a], r[0]), 'd_hash.cpp', defs=['ALG=%d' % a], env=dict(prefix('C01.big'), VH_NOTICK='1'), runs=[('', r[1], [])], timeout=700))
    core.run_jobs(ctx, jobs)
    return ('messages of every length over four blocks, random messages up to 70000 bytes, and one of more than 2^32 bytes, digest compared with an independent reference '
            '(checked against hashlib in this run) or hashlib itself; a case is distinct by length and digest, all are non-trivial', ['long messages repeat a 1 MiB unit'])


def alg_jobs(src, pfx, name, **kw): return [Job('%s.%s' % (name, PYALG[a]), src, defs=['ALG=%d' % a], env=prefix(pfx), **kw) for a in range(7)]


def big_job(name, src, pfx, **kw): return Job('%sbig.%s' % (name, pfx), src, env=dict(prefix(pfx), VH_NOTICK='1', BIG='1'), timeout=800, **kw)


def big_jobs(src, pfx, parts):
    """Inputs of more than 2^32 bytes in one call; the code above the hash is the same for every hash."""
    return [big_job('%s.%s' % (p, PYALG[a]), src, pfx + p, defs=['ALG=%d' % a]) for a in q((2, 4), range(7)) for p in parts]


def huge_jobs(pfx, parts=None):
    """Lengths up to and beyond 2^64: the library's user supplies the routine that goes over the blocks, and ours skips those that do not exist."""
    if parts is None: parts = q((0, 2, 4), range(7))
    return [Job('huge.%s.%s' % (pfx, PYALG[a] if a < 7 else 'rest'), 'd_huge.cpp', defs=['PART=%d' % a], env=prefix(pfx + '.huge'), link=['-lpthread'], optional=True) for a in parts]


def own_hash(pfx):
    """The same over hash functions of our own, whose blocks and digests have other sizes than any of the library's."""
    return [Job('own', 'd_uhash.cpp', flags=['-O2'], env=prefix(pfx + '.own'), optional=True)]


def poly_vectors(ctx, n):
    """Keys and messages that drive the accumulator to chosen values: next to 0, p, 2^128, 2^130 and limb borders, and the last addition to its carries."""
    import random
    rnd = random.Random(core.SEED * 7919 + 5)
    P = (1 << 130) - 5; M128 = (1 << 128) - 1; CL = 0x0ffffffc0ffffffc0ffffffc0fffffff
    targets = []
    for b in (0, P, 1 << 128, 1 << 129, (1 << 130) - 5 - (1 << 128), 1 << 26, 1 << 32, 1 << 44, 1 << 52, 1 << 64, 1 << 78, 1 << 88, 1 << 96, 1 << 104, (1 << 130) - (1 << 104), (1 << 130) - (1 << 96), (1 << 130) - (1 << 32), (1 << 128) - (1 << 26), (1 << 128) - (1 << 64)):
        for d in range(-7, 8):
            if 0 <= b + d < P: targets.append(b + d)
    # all ones in whole limbs
    for w in (26, 32, 44):
        for mask in range(1, 32):
            v = 0
            for l in range((130 + w - 1) // w):
                if mask >> l & 1: v |= ((1 << w) - 1) << (w * l)
            v &= (1 << 130) - 1
            if v < P: targets.append(v)
    def key_r():
        k = rnd.randrange(5)
        r = rnd.getrandbits(128) if k < 3 else ((1 << 128) - 1 if k == 3 else rnd.getrandbits(30) | 4)
        return r & CL
    out = []
    while len(out) < n:
        t = targets[len(out) % len(targets)]
        raw = rnd.getrandbits(128); r = key_r()
        if r == 0: continue
        inv = pow(r, P - 2, P); done = None
        for _ in range(60):
            pre = [rnd.getrandbits(128) if rnd.random() < .7 else M128 for _ in range(rnd.choice((1, 1, 2, 3, 4)))]
            acc = 0
            for m in pre: acc = (acc + m + (1 << 128)) * r % P
            last = (t * inv - acc) % P
            if (1 << 128) <= last < (1 << 129): done = pre + [last - (1 << 128)]; break
        if done is None: continue
        low = t & M128
        s = rnd.choice((0, M128, M128 + 1 - low, M128 - low, (M128 + 2 - low), rnd.getrandbits(128), (-low) & ((1 << 64) - 1), (-low) & 0xffffffff)) & M128
        # the bits the clamp drops are set at random: they must have no effect
        kr = r | (raw & ~CL & M128)
        msg = b''.join(x.to_bytes(16, 'little') for x in done); key = kr.to_bytes(16, 'little') + s.to_bytes(16, 'little')
        a = 0
        for x in done: a = (a + x + (1 << 128)) * r % P
        assert a == t
        out.append((key, msg, ((a + s) & M128).to_bytes(16, 'little')))
    # one short block that drives it there: no multiplication history
    p = os.path.join(ctx.tmp, 'poly.vec')
    with open(p, 'w') as f:
        for k, m, t in out: f.write('%s %s %s\n' % (k.hex(), m.hex() or '-', t.hex()))
    ctx.count('poly_edge_targets', len(targets))
    return p


@check('C02')
def c02(ctx):
    jobs = alg_jobs('d_hash.cpp', 'C02.', 'hash') + alg_jobs('d_mac.cpp', 'C02.', 'mac') + alg_jobs('d_kdf.cpp', 'C02.', 'kdf')
    jobs += [Job(n, 'd_%s.cpp' % n, env=prefix('C02.')) for n in ('poly', 'cipher', 'aead')]
    with_selftest(ctx, jobs)
    return ('an input cut into pieces (all two way cuts around the block sizes, random many way cuts biased to block edges, with empty pieces), result compared with the '
            'reference value of the whole; a case is distinct by length and cut positions and non-trivial if there is more than one piece', [])


@check('C03')
def c03(ctx):
    with_selftest(ctx, alg_jobs('d_mac.cpp', 'C03.', 'mac') + big_jobs('d_mac.cpp', 'C03.big.', ('key', 'msg')) + huge_jobs('C03') + own_hash('C03'))
    return ('every key length and every message length over three blocks, random longer ones, each compared with an independent HMAC; HMAC over hash functions of our own with blocks of 8 to 1024 and digests of 1 to 255 bytes, compared with the formula; distinct by lengths and tag', [])


@check('C04')
def c04(ctx):
    with_selftest(ctx, [Job('poly', 'd_poly.cpp', env=dict(prefix('C04.'), POLY_VECTORS=poly_vectors(ctx, q(6000, 150000)))), big_job('poly', 'd_poly.cpp', 'C04.big.')] + huge_jobs('C04', [7]))
    return ('random and structured keys and messages, and ones solved for so that the accumulator ends at values next to 0, p, 2^128 and every limb border, tag compared with exact integer arithmetic; distinct by lengths and tag', [])


@check('C05')
def c05(ctx):
    with_selftest(ctx, alg_jobs('d_kdf.cpp', 'C05.', 'kdf') + big_jobs('d_kdf.cpp', 'C05.big.', ('ikm', 'salt', 'info')) + huge_jobs('C05') + own_hash('C05'))
    return ('output lengths from 0 to 255 hash lengths, ikm, salt and info of lengths around the block size, compared with an independent HKDF; the same over hash functions of our own with other block and digest sizes, compared with the formula; distinct by lengths and output, non-trivial if output is not empty', ['outputs beyond 255 hash lengths are outside RFC 5869 and not judged'])


@check('C06')
def c06(ctx):
    with_selftest(ctx, alg_jobs('d_kdf.cpp', 'C06.', 'kdf') + big_jobs('d_kdf.cpp', 'C06.big.', ('ikm', 'salt')) + huge_jobs('C06') + own_hash('C06')
                  + [Job('prf.' + g, 'd_prf.cpp', flags=['-O2'], env=dict(prefix('C06.prf.' + g), VH_NOTICK='1'), link=['-lpthread'], timeout=q(800, 3000), optional=True) for g in ('max.0', 'max.1', 'iter', 'blocks', 'wide')])
    return ('every iteration count up to a bound and some large ones, output lengths up to more than 65536 blocks, compared with an independent PBKDF2; the largest iteration counts (2^32-1, 2^31 and more, 2^24 and more), more than 2^24 blocks and a single output of more than 2^32 bytes with a pseudo random function of our own, compared with the formula of the RFC; distinct by lengths, count and output, non-trivial if output is not empty', ['iteration count 0 is outside RFC 8018 and not judged'])


@check('C07')
def c07(ctx):
    with_selftest(ctx, [Job('cipher', 'd_cipher.cpp', env=prefix('C07.')), big_job('cipher', 'd_cipher.cpp', 'C07.big.')] + huge_jobs('C07', [7]))
    return ('every text length up to 1100 bytes and random longer ones on every backend, initial counters around 0, 2^31 and all 48 below the wrap, compared with an independent ChaCha20; distinct by length, counter and key, non-trivial if not empty', ['the counter is the first 4 bytes of the 16 byte iv, as documented'])


@check('C08')
def c08(ctx):
    jobs = [Job('aead', 'd_aead.cpp', env=prefix('C08.'))]
    for part in ('text', 'aad'): jobs += [Job('aeadbig.' + part, 'd_aead.cpp', env=dict(prefix('C08.big.' + part), VH_NOTICK='1', AEAD_BIG='1'), timeout=800)]
    with_selftest(ctx, jobs + huge_jobs('C08', [7]))
    return ('all pairs of additional data and text lengths below 50, random longer ones, and text and additional data of more than 2^32 bytes, at once and in pieces, ciphertext and tag compared with an independent ChaCha20-Poly1305; distinct by lengths and tag', [])


@check('C09')
def c09(ctx):
    with_selftest(ctx, [Job('aead', 'd_aead.cpp', env=prefix('C09.'))] + huge_jobs('C09', [7]))
    return ('authentic messages, and forgeries by every single bit of tag, ciphertext, additional data, key and iv, pairs of tag bits, truncation and extension of every part and moved borders, opened through nine call shapes in turn; distinct by call shape and inputs', [])


def codec(ctx, pid):
    with_selftest(ctx, [Job('codec', 'd_codec.cpp', env=prefix(pid + '.')), Job('codecbig', 'd_codec.cpp', env=dict(prefix(pid + '.big'), CODEC_BIG='1', VH_NOTICK='1'), timeout=700)])


@check('C10')
def c10(ctx):
    codec(ctx, 'C10')
    return ('every input of one and two bytes, random longer ones and one of more than 2^32 bytes encoded; every byte value at every position of texts up to 21 characters, all texts of two bytes, all sizes, and mutated texts decoded through seven call shapes, judged by an independent decoder; distinct by text and shape', [])


@check('C11')
def c11(ctx):
    codec(ctx, 'C11')
    return ('every input of one and two bytes, a grid of those of three, random longer ones and one of more than 2^32 bytes encoded; every byte value at every position of texts up to 21 characters, every placement of padding in texts up to 12 characters, pairs of all byte values, and mutated texts decoded through seven call shapes, judged by an independent decoder; distinct by text and shape',
            ['texts whose unused trailing bits are not zero may be accepted or rejected'])
