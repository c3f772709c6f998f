"""Checks over how the library is called: memory ranges (C14), call shapes (C17), in place operation (C28)."""
from . import check, core, q, with_selftest
Job = core.Job


@check('C14')
def c14(ctx):
    with_selftest(ctx, [Job('guard.' + n, 'd_guard.cpp', flags=['-O2'], defs=['PART=%d' % i], env={'VH_PREFIX': 'C14.'}) for i, n in enumerate(('sha1_sha256', 'sha512', 'poly_cipher', 'aead', 'codec'))]
                  + [Job('guard.clang.' + n, 'd_guard.cpp', cxx=core.CLANG, flags=['-O2'], defs=['PART=%d' % i], env={'VH_PREFIX': 'C14.'}) for i, n in enumerate(('sha1_sha256', 'sha512', 'poly_cipher', 'aead', 'codec'))])
    return ('every input lies in a read only page mapping and every output in a mapping that ends (or starts) at an inaccessible page, at every alignment, with canaries on the other side; any access outside faults, any write to an input faults, '
            'and every output is compared with the reference; distinct by primitive, backend, sizes and placement', ['pages are 4096 bytes; an access that jumps over the inaccessible page would go unseen'])


@check('C17')
def c17(ctx):
    names = ('hash', 'mac', 'kdf', 'cipher', 'aead', 'codec')
    jobs = [Job('shape.%s.%s' % (n, c), 'd_shape.cpp', cxx=x, flags=['-O1'], defs=['PART=%d' % i], env={'VH_PREFIX': 'C17.'}, compile_violation=True) for i, n in enumerate(names) for c, x in (('gcc', core.GXX), ('clang', core.CLANG))]
    with_selftest(ctx, jobs)
    return ('each documented call shape instantiated with each input kind (25), output kind (21) and byte type (3), called with random data, every output compared with the reference; a driver that does not compile is a violation; distinct by kind and data',
            ['value initialised containers with default member initialisers on gcc are left out: gcc cannot evaluate them in the concept'])


@check('C28')
def c28(ctx):
    with_selftest(ctx, [Job('inplace.gcc', 'd_inplace.cpp', flags=['-O2'], env={'VH_PREFIX': 'C28.'}), Job('inplace.clang', 'd_inplace.cpp', cxx=core.CLANG, flags=['-O3'], env={'VH_PREFIX': 'C28.'})])
    return ('encrypt, decrypt, encode and digest calls whose output range is the input range, for every size, split and backend, compared with the reference applied to a saved copy; and outputs of one object next to inputs of another; distinct by primitive, backend, size and split', [])
