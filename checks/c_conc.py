"""C20: threads."""
from . import check, core, q, with_selftest
Job = core.Job
PARTS = ('hash_codec', 'mac', 'hkdf', 'pbkdf2', 'cipher_aead')


@check('C20')
def c20(ctx):
    jobs = []
    for i, n in enumerate(PARTS):
        for cxx in (core.CLANG, core.GXX)[:q(1, 2)]:
            jobs.append(Job('thread.race.%s.%s' % (n, 'gcc' if cxx == core.GXX else 'clang'), 'd_thread.cpp', cxx=cxx, flags=['-O1', '-g1', '-fsanitize=thread', '-pthread'], defs=['PART=%d' % i, 'TSAN=1'], timeout=850))
        for cxx, o in ((core.GXX, '-O2'), (core.CLANG, '-O3'))[:q(1, 2)]:
            jobs.append(Job('thread.run.%s.%s' % (n, 'gcc' if cxx == core.GXX else 'clang'), 'd_thread.cpp', cxx=cxx, flags=[o, '-pthread'], defs=['PART=%d' % i], timeout=850))
    with_selftest(ctx, jobs)
    return ('processes of 2 to 8 threads: all start with the first use of the library, mixed work on objects of their own and on shared inputs, all in the same call, copies of one object, objects passed on from thread to thread; under '
            'ThreadSanitizer and natively; and one thread single-stepped with a whole call of another thread after every k-th instruction; every output compared with the reference; distinct by scenario, calls, number of threads and step pattern',
            ['ThreadSanitizer does not see memory accesses of assembly routines; the stepped runs and the compared results cover those', 'one schedule per stepped pair and pattern, not all'])
