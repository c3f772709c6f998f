import os, sys, hashlib, hmac as pyhmac, struct, base64, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
core = sys.modules.get('run')
if core is None or not hasattr(core, 'Job'):
    import run as core
REGISTRY = {}
ALGS = ['SHA1', 'SHA224', 'SHA256', 'SHA384', 'SHA512', 'SHA512_224', 'SHA512_256']
PYALG = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha512_224', 'sha512_256']
HAS_NI = [True, True, True, False, False, False, False]


def check(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


def q(quick, thorough):
    return thorough if core.THOROUGH else quick


def chacha_block_py(key, ctr, nonce):
    M = 0xffffffff
    s = list(struct.unpack('<4I', b'expand 32-byte k')) + list(struct.unpack('<8I', key)) + [ctr & M] + list(struct.unpack('<3I', nonce))
    x = s[:]
    def qr(a, b, c, d):
        for p, qq, t, n in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
            x[p] = (x[p] + x[qq]) & M; x[t] ^= x[p]; x[t] = ((x[t] << n) | (x[t] >> (32 - n))) & M
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15); qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack('<16I', *[(a + b) & M for a, b in zip(x, s)])


def chacha_py(key, ctr, nonce, m):
    ks = b''.join(chacha_block_py(key, ctr + i, nonce) for i in range((len(m) + 63) // 64))
    return bytes(a ^ b for a, b in zip(m, ks))


def poly_py(key, m):
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff; s = int.from_bytes(key[16:32], 'little'); a = 0
    for i in range(0, len(m), 16): a = (a + int.from_bytes(m[i:i + 16] + b'\1', 'little')) * r % ((1 << 130) - 5)
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, 'little')


def hkdf_py(h, ikm, salt, info, n):
    prk = pyhmac.new(salt or b'', ikm, h).digest(); t = b''; o = b''; i = 1
    while len(o) < n: t = pyhmac.new(prk, t + info + bytes([i]), h).digest(); o += t; i += 1
    return o[:n]


def pbkdf_py(h, pw, salt, it, n):
    o = b''; b = 1
    while len(o) < n:
        u = pyhmac.new(pw, salt + struct.pack('>I', b), h).digest(); x = int.from_bytes(u, 'big')
        for _ in range(it - 1): u = pyhmac.new(pw, u, h).digest(); x ^= int.from_bytes(u, 'big')
        o += x.to_bytes(len(u), 'big'); b += 1
    return o[:n]


def selftest(ctx):
    """The oracle is only believed after it agrees with python's own implementations."""
    exe = os.path.join(ctx.tmp, 'selftest')
    r = subprocess.run([core.GXX, '-std=c++20', '-O1', '-I' + core.H, os.path.join(core.H, 'd_selftest.cpp'), '-o', exe], capture_output=True, text=True)
    if r.returncode: raise core.Infra('selftest does not build: ' + r.stderr[-500:])
    out = subprocess.run([exe], capture_output=True, text=True).stdout
    n = 0; X = bytes.fromhex
    for l in out.splitlines():
        p = l.split(' '); k, got = p[0], X(p[-1]) if p[-1] else b''
        h = (lambda *a: hashlib.new(PYALG[int(p[1])], *a)) if k in ('hash', 'hmac', 'hkdf', 'pbkdf') else None
        if k == 'hash': want = h(X(p[2])).digest()
        elif k == 'hmac': want = pyhmac.new(X(p[2]), X(p[3]), h).digest()
        elif k == 'hkdf': want = hkdf_py(h, X(p[2]), X(p[3]), X(p[4]), len(got))
        elif k == 'pbkdf': want = pbkdf_py(h, X(p[2]), X(p[3]), int(p[4]), len(got))
        elif k == 'chacha': want = chacha_py(X(p[1]), int(p[2]), X(p[3]), X(p[4]))
        elif k == 'poly': want = poly_py(X(p[1]), X(p[2]))
        elif k == 'aead':
            key, iv, a, m = X(p[1]), X(p[2]), X(p[3]), X(p[4]); ct = chacha_py(key, 1, iv, m); pad = lambda b: b'\0' * (-len(b) % 16)
            want = ct + poly_py(chacha_block_py(key, 0, iv)[:32], a + pad(a) + ct + pad(ct) + struct.pack('<QQ', len(a), len(m)))
        elif k == 'b16': want = base64.b16decode(p[1], True)
        elif k == 'b64': want = base64.b64decode(p[1], validate=True)
        else: raise core.Infra('selftest: ' + l[:100])
        if got != want: raise core.Infra('reference implementation disagrees with python: ' + l[:200])
        n += 1
    if n < 500: raise core.Infra('selftest incomplete')
    ctx.count('oracle_selftest_vectors', n)


def with_selftest(ctx, jobs):
    import threading
    err = []
    def w():
        try: selftest(ctx)
        except Exception as x: err.append(x)
    t = threading.Thread(target=w); t.start()
    core.run_jobs(ctx, jobs); t.join()
    if err: raise err[0] if isinstance(err[0], core.Infra) else core.Infra(repr(err[0]))


from . import c_func, c_asm, c_state, c_use, c_cli, c_san, c_erase, c_out, c_conc, c_const, c_time, c_prog, c_config, c_gen, c_iface, c_order  # noqa
