"""C24: secrets do not steer execution."""
from . import check, core, q, with_selftest
Job = core.Job
PARTS = ('hmac', 'kdf', 'cipher_poly', 'aead')
VG = ['valgrind', '-q', '--tool=memcheck', '--error-limit=no', '--expensive-definedness-checks=yes', '--log-file=/dev/null']


@check('C24')
def c24(ctx):
    jobs = []
    nm = lambda c: 'gcc' if c == core.GXX else 'clang'
    # Under memcheck with secrets undefined.
    conf = [(core.GXX, '-O2', 'unsigned char', PARTS), (core.CLANG, '-O3', 'unsigned char', PARTS), (core.GXX, '-O3', 'signed char', PARTS[2:]), (core.CLANG, '-O2', 'char', PARTS[2:])]
    if core.THOROUGH: conf = [(c, o, b, PARTS) for c in (core.GXX, core.CLANG) for o in ('-O1', '-O2', '-O3', '-Os') for b in ('unsigned char', 'char', 'signed char')]
    for c, o, b, ps in conf:
        for n in ps: jobs.append(Job('time.taint.%s.%s%s.%s' % (n, nm(c), o, b.replace(' ', '_')), 'd_time.cpp', cxx=c, flags=[o, '-w'], defs=['TAINT=1', 'PART=%d' % PARTS.index(n), 'BT=' + b], env={'VH_NOTICK': '1'}, wrap=VG, timeout=850))
    # Stepped natively.
    trace = [(core.CLANG, '-O2', 'unsigned char', 'hmac', 1, 3), (core.GXX, '-O2', 'unsigned char', 'kdf', 1, 4), (core.CLANG, '-O2', 'unsigned char', 'cipher_poly', 8, 1), (core.GXX, '-O2', 'char', 'aead', 4, 1), (core.CLANG, '-O3', 'unsigned char', 'aead', 4, 1)]
    if core.THOROUGH: trace = [(c, o, b, n, r, 2) for c, o, b in ((core.GXX, '-O2', 'unsigned char'), (core.CLANG, '-O3', 'char'), (core.GXX, '-O3', 'signed char'), (core.CLANG, '-O1', 'unsigned char')) for n, r in (('hmac', 1), ('kdf', 1), ('cipher_poly', 4), ('aead', 3))]
    for c, o, b, n, rounds, sl in trace:
        jobs.insert(0, Job('time.trace.%s.%s%s' % (n, nm(c), o), 'd_time.cpp', cxx=c, flags=[o, '-w', '-static', '-no-pie'], defs=['PART=%d' % PARTS.index(n), 'BT=' + b, 'ROUNDS=%d' % rounds], timeout=850, runs=[('.%d' % i, {'VH_SLICE': '%d/%d' % (i, sl)}, []) for i in range(sl)]))
    with_selftest(ctx, jobs)
    return ('every MAC, KDF, cipher and AEAD operation, raw and container calls and histories of an object: (a) under memcheck with key and message bytes undefined, a report for every branch or address that depends on them, whatever the values; '
            '(b) single-stepped on every backend, the sequence of instructions and of effective addresses (decoded from the program by objdump) compared between two secrets of equal sizes, good and bad tags, and tags that differ in different bytes; distinct by operation, sizes, plan and kind of secrets',
            ['the outcome of a tag verification is public: up to 6 tainted branches in a call that verifies, and traces are compared between calls of the same outcome', 'nonce, aad, salt and info are public', 'SHA-NI code is decided by traces alone, valgrind cannot run it', 'code as compiled here at -O2, -O3 (thorough: -O1, -Os too)'])
