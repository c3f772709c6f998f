"""C18 output sizes, C19 error reporting."""
from . import check, core, q, with_selftest
Job = core.Job
BUILDS = [(core.GXX, '-O1'), (core.CLANG, '-O2'), (core.GXX, '-O3'), (core.CLANG, '-O0')]


def tag(b): return ('gcc' if b[0] == core.GXX else 'clang') + b[1]


@check('C18')
def c18(ctx):
    jobs = [Job('trunc.%d.%s' % (p, tag(b)), 'd_trunc.cpp', cxx=b[0], flags=[b[1]], defs=['PART=%d' % p], compile_violation=True) for b in BUILDS[:q(2, 4)] for p in range(4)]
    with_selftest(ctx, jobs)
    return ('extractions of digests and tags with requested sizes below, at and above the native size, into pointers, fixed and growing containers of every byte type, repeated and after further input, fixed outputs surrounded and '
            'filled with marked bytes; oracle: prefix of the reference digest, the smaller of the three sizes, marked bytes untouched; distinct by interface, container kind, sizes and number of extraction',
            ['digest_size larger than the native size is not judged', 'fixed output containers other than those of digests are documented to be large enough'])


@check('C19')
def c19(ctx):
    jobs = [Job('error.%d.%s' % (p, tag(b)), 'd_error.cpp', cxx=b[0], flags=[b[1]], defs=['PART=%d' % p], compile_violation=True) for b in BUILDS[:q(2, 4)] for p in range(3)]
    with_selftest(ctx, jobs)
    return ('fallible calls of every shape on authentic, valid, damaged and malformed inputs, with error objects holding each stale code and without, and containers that throw four kinds of exceptions at the n-th growth; oracle: the verdict of '
            'the reference implementation, the same verdict by error object and by exception, the error object cleared on success, the exception object unchanged, no termination; distinct by interface, stale code, verdict and kind of failure', [])


ALLOC = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0), (4, 0)]


@check('C29')
def c29(ctx):
    jobs = [Job('alloc.%d%d.%s' % (p, h, tag(b)), 'd_alloc.cpp', cxx=b[0], flags=[b[1]], defs=['PART=%d' % p, 'HALF=%d' % h], compile_violation=True) for b in BUILDS[:q(1, 3)] for p, h in ALLOC]
    with_selftest(ctx, jobs)
    return ('calls of every shape with all heap functions interposed: with pointers, fixed containers and views as outputs no request at all, on success, on failure reported by object and by exception; with growing outputs that have '
            'memory of their own no request elsewhere, and nothing left after each of their requests was refused in turn; with ordinary vectors nothing left after each heap request was refused in turn; distinct by call shape and container kinds',
            ['the memory of a thrown exception object belongs to the language runtime and is not counted', 'a container of the caller keeps its memory until the caller destroys it'])
