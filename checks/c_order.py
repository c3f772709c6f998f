"""C33: the byte order of the machine."""
from . import check, core, q, with_selftest, PYALG
from .c_func import poly_vectors
Job = core.Job
G, C = core.GXX, core.CLANG
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


@check('C33')
def c33(ctx):
    vec = poly_vectors(ctx, q(3000, 100000)); jobs = []
    # big: what the library does with values. raw: what it does with bytes of the memory, which shows them in the other order.
    def job(mode, name, src, cxx, defs=(), div=q(6, 1), san=False, **env):
        jobs.append(Job('%s.%s.%s' % (mode, name, 'gcc' if cxx == G else 'clang') + ('.san' if san else ''), src, cxx=cxx, flags=['-O1', '-w', '-include', '%s/%s.h' % (core.H, mode)] + (SAN if san else []), defs=list(defs), asm=False,
                        compile_violation=mode == 'big', optional=mode == 'raw', timeout=850, env=dict({k: str(v) for k, v in env.items()}, **({'VH_DIV': str(div)} if div > 1 else {}))))
    for m, mode in enumerate(('big', 'raw')):
        for k, cxx in enumerate((G, C)):
            # In quick runs each driver is built once for each mode, by one compiler for one and by the other for the other.
            if core.THOROUGH or (k + m + core.SEED) % 2 == 0:
                job(mode, 'poly', 'd_poly.cpp', cxx, POLY_VECTORS=vec)
                for src in ('cipher', 'aead', 'codec', 'inplace'): job(mode, src, 'd_%s.cpp' % src, cxx)
                for p in range(5):
                    job(mode, 'object.%d' % p, 'd_object.cpp', cxx, ['PART=%d' % p])
                    if p < 4: job(mode, 'trunc.%d' % p, 'd_trunc.cpp', cxx, ['PART=%d' % p])
            for a in range(7):
                if core.THOROUGH or (a + k + m + core.SEED) % 2 == 0:
                    for src in ('hash', 'mac', 'kdf'): job(mode, '%s.%s' % (src, PYALG[a]), 'd_%s.cpp' % src, cxx, ['ALG=%d' % a])
            if core.THOROUGH:
                for a in range(7):
                    for src in ('hash', 'mac', 'kdf'): job(mode, '%s.%s' % (src, PYALG[a]), 'd_%s.cpp' % src, cxx, ['ALG=%d' % a], div=6, san=True)
                job(mode, 'poly', 'd_poly.cpp', cxx, div=6, san=True, POLY_VECTORS=vec)
                for src in ('cipher', 'aead', 'codec'): job(mode, src, 'd_%s.cpp' % src, cxx, div=6, san=True)
    with_selftest(ctx, jobs)
    return ('every primitive built as for a machine of the other byte order and run, judged by the same reference as on this one: digests, tags, keys, ciphertexts, codec texts, forgeries, histories of an object with copies, calls in place and truncated outputs, elements of every width; distinct by driver, case and result',
            ['the byte order is emulated: the library is told the machine is big-endian, and runs once the paths it has for constant evaluation, which work on values, and once those of run time over a memory whose bytes it sees in the other order'])
