"""C26: configurations."""
import os, collections
from . import check, core, q, with_selftest
Job = core.Job
PARTS = ('hash', 'mac', 'kdf', 'cipher_aead_codec')
G, C = core.GXX, core.CLANG
CORE = [(G, '-O0', True), (G, '-O3', True), (G, '-Os', False), (C, '-O0', False), (C, '-O3', True), (C, '-Oz', True)]
ODD = [(G, '-O1', True), (C, '-O1', True), (G, '-O2 -funsigned-char', False), (C, '-O2 -funsigned-char', True), (G, '-O2 -std=c++23', True), (C, '-O2 -std=c++23', True), (G, '-Og', True), (C, '-Os', False), (G, '-O2 -march=native', True), (C, '-O3 -march=native', False),
       (G, '-O3 -flto', True), (C, '-O2 -fno-inline', True), (G, '-O2 -D_GLIBCXX_DEBUG', True), (C, '-O2 -D_GLIBCXX_ASSERTIONS', True), (G, '-Ofast', True), (C, '-O3 -ffast-math', True), (G, '-O2 -ftrapv', True), (C, '-O1 -ftrapv', True), (G, '-O2 -fPIC', True), (C, '-O2 -fno-builtin', True),
       (G, '-O2 -fno-inline', False), (C, '-O2', False), (G, '-O3 -funroll-all-loops', False), (G, '-O2 -fno-builtin -std=gnu++20', True), (G, '-O2 -fstack-protector-all -D_FORTIFY_SOURCE=3', True), (C, '-O2 -DNDEBUG -fwrapv', True), (G, '-O2 -fno-rtti -DNDEBUG', True), (C, '-O2 -fno-rtti -fno-strict-aliasing', True)]


@check('C26')
def c26(ctx):
    conf = [(c, f, a, p) for c, f, a in CORE for p in range(4)]
    if core.THOROUGH:
        conf += [(c, f, a, p) for c, f, a in ODD for p in range(4)]
        conf += [(c, o + ' ' + x, a, p) for c in (G, C) for o in ('-O0', '-O1', '-O2', '-O3', '-Os') for a in (True, False) for x in ('', '-march=native', '-funsigned-char -std=c++23') for p in range(4) if (c, (o + ' ' + x).strip(), a, p) not in conf]
    else: conf += [(c, f, a, (i + core.SEED) % 4) for i, (c, f, a) in enumerate(ODD)]
    jobs = []
    for c, f, a, p in conf:
        name = 'config.%s.%s.%s.%s' % (PARTS[p], 'gcc' if c == G else 'clang', f.strip().replace(' ', '_'), 'asm' if a else 'noasm')
        # Without assembler the package defines nothing.
        jobs.append(Job(name, 'd_config.cpp', cxx=c, flags=['-w'] + f.split() + ([] if a else ['-UMILO_INTERNAL_ASM']), defs=['PART=%d' % p], asm=a, compile_violation=True, timeout=850, env={'VH_TR': os.path.join(ctx.tmp, name + '.tr')}))
    with_selftest(ctx, jobs)
    # The same transcript everywhere.
    for p in range(4):
        seen = collections.defaultdict(lambda: collections.defaultdict(list)); n = 0
        for j in jobs:
            if 'PART=%d' % p not in j.defs: continue
            try: lines = open(j.env['VH_TR']).read().splitlines()
            except OSError: continue
            n += 1
            for l in lines: k, _, v = l.rpartition(' '); seen[k][v].append(j.name)
        for k, vs in seen.items():
            if len(vs) > 1:
                order = sorted(vs.values(), key=len); ctx.violate('transcript:%s' % k.rsplit('.', 1)[0], 'the results of %s in %s differ from those in %s' % (k, ', '.join(order[0][:4]), ', '.join(order[-1][:4])), kind='transcript', case=k, values={v: w for v, w in vs.items()})
        ctx.count('transcript_results_compared', sum(len(w) for vs in seen.values() for w in vs.values())); ctx.count('configurations_compared', n)
    return ('one workload over every primitive, backend, kind of call, defective text, forged tag, exception and constant, built by gcc and clang at every optimisation level with and without assembly and with unusual but legal options, judged by the reference in each build and by the equality of the transcripts of all builds; distinct by build, case and result',
            ['gcc 13.3 and clang 18 with libstdc++ on x86-64; libc++ and 32-bit targets are not installed', 'building with exceptions disabled is not offered by the library and not judged'])
