"""C16: what is left of secrets after objects and one-shot functions are gone."""
from . import check, core, q, with_selftest
Job = core.Job
PARTS = ('sha1_sha256', 'sha384_sha512', 'sha512t', 'poly_cipher_aead')
STORAGE = [(core.GXX, '-O2'), (core.CLANG, '-O2'), (core.GXX, '-O1'), (core.CLANG, '-O3'), (core.GXX, '-O3')]
STACK = [(core.GXX, '-O1'), (core.GXX, '-O2'), (core.GXX, '-Os'), (core.CLANG, '-O1'), (core.CLANG, '-Os')]
NEED = 3


@check('C16')
def c16(ctx):
    jobs = []
    builds = list(dict.fromkeys(STORAGE[:q(3, 5)] + STACK))
    for cxx, o in builds:
        tag = ('gcc' if cxx == core.GXX else 'clang') + o
        for i, n in enumerate(PARTS):
            runs = []
            if (cxx, o) in STORAGE[:q(3, 5)]: runs.append(('.storage', {'VH_PREFIX': 'C16.storage'}, []))
            if (cxx, o) in STACK: runs.append(('.stack', {'VH_PREFIX': 'C16.stack', 'VH_TAG': tag}, []))
            jobs.append(Job('erase.%s.%s' % (n, tag), 'd_erase.cpp', cxx=cxx, flags=[o], defs=['PART=%d' % i], runs=runs))
    with_selftest(ctx, jobs)
    leaks = {}
    for k in [k for k in ctx.counters if k.startswith('leak:')]:
        _, tag, what = k.split(':', 2); leaks.setdefault(what, set()).add(tag); del ctx.counters[k]
    for what, tags in sorted(leaks.items()):
        if len(tags) >= NEED: ctx.violate('stack:' + what, '%s, when built with %s' % (what, ', '.join(sorted(tags))), kind='stack')
        else: ctx.count('stack_remains_in_too_few_builds_to_judge')
    return ('histories of operations on an object and its copies, run three times with the same structure and different secrets; after destruction the storage bytes must agree; and one-shot calls on a stack of their own, '
            'searched afterwards for 16 byte windows of keys, padded and hashed keys, one-time keys and derived blocks, in the orders they are kept in; distinct by structure and sizes',
            ['a stack remainder is reported when it occurs in at least three of five builds (gcc -O1, -O2, -Os, clang -O1, -Os): a compiler may spill a vector register anywhere', 'registers are not looked at'])
