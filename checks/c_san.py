"""C15: no undefined behaviour, memory errors, leaks or uninitialised data, seen by compiler sanitizers and valgrind."""
from . import check, core, q
from . import c_cli
import threading
Job = core.Job
GSAN = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
CSAN = ['-O1', '-g1', '-fsanitize=address,undefined,local-bounds', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
MSAN = ['-O1', '-g1', '-fsanitize=memory', '-fno-omit-frame-pointer', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
NAMES = ('hash', 'mac', 'hkdf', 'pbkdf2', 'cipher')
VG = ['valgrind', '-q', '--error-exitcode=77', '--undef-value-errors=yes', '--leak-check=full', '--errors-for-leak-kinds=definite', '--show-leak-kinds=definite', '--exit-on-first-error=yes']


def jobs():
    e = {'VH_DIV': q('8', '1')}; r = []
    for i, n in enumerate(NAMES):
        d = ['PART=%d' % i]
        r.append(Job('asan.gcc.' + n, 'd_object.cpp', flags=GSAN, defs=d, env=e))
        r.append(Job('msan.' + n, 'd_object.cpp', cxx=core.CLANG, flags=MSAN, defs=d, env=e, asm=False))
        if core.THOROUGH or i in (1, 4): r.append(Job('asan.clang.' + n, 'd_object.cpp', cxx=core.CLANG, flags=CSAN, defs=d, env=e))
    for n, src, div in (('aead', 'd_aead.cpp', '12'), ('codec', 'd_codec.cpp', '6'), ('inplace', 'd_inplace.cpp', '8')):
        dv = {'VH_DIV': q(div, '1')}
        r.append(Job('asan.clang.' + n, src, cxx=core.CLANG, flags=CSAN, env=dv))
        r.append(Job('msan.' + n, src, cxx=core.CLANG, flags=MSAN, env=dv, asm=False))
        if core.THOROUGH: r.append(Job('asan.gcc.' + n, src, flags=GSAN, env=dv))
    for i, n in enumerate(('hash', 'mac', 'kdf', 'cipher', 'aead', 'codec')):
        r.append(Job('asan.shape.' + n, 'd_shape.cpp', flags=GSAN, defs=['PART=%d' % i], env={'VH_DIV': q('4', '1')}))
    # the assembly, which sanitizers do not see (valgrind knows no sha instructions, so the ciphers only)
    r.append(Job('valgrind.cipher', 'd_object.cpp', flags=['-O1', '-g1'], defs=['PART=4'], env={'VH_DIV': q('100', '10'), 'VH_NOTICK': '1'}, wrap=VG))
    return r


@check('C15')
def c15(ctx):
    err = []
    def app():
        try:
            ctx.seen = set(); exe = c_cli.build_app(ctx, 'app', CSAN, core.CLANG)
            lists = {}
            for adv in (False, True):
                rc, o, e = core.run_proc([exe] + (['--advanced'] if adv else []) + ['benchmark', 'primitive', 'list']); lists[adv] = o.split('\n')[:-1]
            if not lists[True]: raise core.Infra('no benchmarks listed')
            for size in (0, 1, 63, 200):
                ps = ['--%s=%d' % (p, 2 if p == 'iterations' else size) for p in c_cli.ALLP]
                for f, _ in c_cli.FAMILY: c_cli.one(ctx, exe, ['--advanced', '--verbose', 'benchmark', '--repeats-time=2', '--repeats-warm=1', '--cpu-clock=1000', 'primitive', f + '*'] + ps, lists, 1000, 'app')
            for a in ([], ['version'], ['benchmark'], ['benchmark', 'primitive'], ['benchmark', 'x'], ['x'], ['benchmark', '--repeats-time=x', 'primitive', 'list'], ['benchmark', 'primitive', '*'], ['benchmark', 'primitive', 'hash-*', '--message-size=18446744073709551615']): c_cli.one(ctx, exe, a, lists, 1000, 'app')
        except Exception as x: err.append(x)
    t = threading.Thread(target=app); t.start()
    core.run_jobs(ctx, jobs()); t.join(); ctx.distinct += len(ctx.seen)
    if err: raise err[0] if isinstance(err[0], core.Infra) else core.Infra(repr(err[0]))
    return ('the call histories of C22 and C27, and the workloads of C08 to C11, C17 and C28, run under AddressSanitizer with LeakSanitizer, UndefinedBehaviorSanitizer (gcc and clang), MemorySanitizer (portable code) and valgrind memcheck (cipher assembly); '
            'every output is compared with the reference as well, so that all of it is read; distinct by the signatures of those workloads', ['strict aliasing is not monitored: no tool here does', 'assembly is seen by C14 (page protection) and valgrind only'])
