"""C13: constants."""
from . import check, core, q, with_selftest
Job = core.Job
PARTS = ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha512_224', 'sha512_256', 'cipher_poly', 'aead', 'codec')
HPARTS = ('hash', 'mac', 'cipher_aead')
KPARTS = ('hash', 'mac', 'kdf', 'cipher_codec', 'aead')


def cc(cxx): return ['-O0', '-w'] + (['-fconstexpr-ops-limit=2147483647', '-fconstexpr-loop-limit=10000000'] if cxx == core.GXX else ['-fconstexpr-steps=2147483647'])


@check('C13')
def c13(ctx):
    jobs = []
    for cxx in (core.GXX, core.CLANG):
        nm = 'gcc' if cxx == core.GXX else 'clang'
        for r in range(q(1, 6)):
            # In the first round the two compilers evaluate different inputs; thorough rounds give both the same rounds shifted by one.
            seed = core.SEED * 16 + r + (cxx == core.CLANG)
            D = ['SEEDV=%d' % seed, 'N_ONE=%d' % q(4, 8), 'N_HIST=%d' % q(4, 6)]
            for i, n in enumerate(PARTS): jobs.append(Job('const.%s.%s.%d' % (n, nm, r), 'd_const.cpp', cxx=cxx, flags=cc(cxx), defs=D + ['PART=%d' % i], compile_violation=True, timeout=850))
            for i, n in enumerate(('sha1_sha256', 'sha512', 'rest')): jobs.append(Job('const.large.%s.%s.%d' % (n, nm, r), 'd_const.cpp', cxx=cxx, flags=cc(cxx), defs=D + ['PART=%d' % i, 'LARGE=1'], compile_violation=True, timeout=850))
            for i, n in enumerate(KPARTS):
                for k in range(3):
                    if r < q(1, 2) and (core.THOROUGH or (k + i) % 3 != 1 or cxx == core.GXX): jobs.append(Job('const.kinds.%s.%d.%s.%d' % (n, k, nm, r), 'd_const.cpp', cxx=cxx, flags=cc(cxx), defs=D + ['PART=%d' % i, 'KINDS=%d' % k], compile_violation=True, timeout=850))
            for i, n in enumerate(HPARTS): jobs.append(Job('const.handover.%s.%s.%d' % (n, nm, r), 'd_handover.cpp', cxx=cxx, flags=cc(cxx), defs=['SEEDV=%d' % seed, 'N_HIST=%d' % q(2, 4), 'PART=%d' % i], compile_violation=True, timeout=850))
    with_selftest(ctx, jobs)
    return ('generated programs whose results are computed twice by the same function, once as a constexpr variable (by gcc and by clang) and once at run time, and compared with each other and with the reference: every primitive and backend, '
            'raw and container calls, one-shot calls and histories of an object with copies, every element type and container kind, codec texts with defects, AEAD forgeries; objects of every hash, MAC, cipher and AEAD that do the first steps of a history in a constant and the others at run time (as a copy, assigned, or as the variable itself), against one that does all of them at run time; distinct by function and constant result',
            ['constants up to some 5 kB of input, 24 kB of results', 'literals returning containers of their own storage (_b, _bv) are not declared constexpr and not judged as constants', 'inputs of a constant are fixed by the seed at build time'])
