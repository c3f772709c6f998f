# C32: the documented interface: types accepted and refused, sizes refused, published constants, documented examples.
from . import core, check, q
import os, glob
from concurrent.futures import ThreadPoolExecutor


@check('C32')
def c32(ctx):
    asm = ctx.asm(); src = os.path.join(core.H, 'd_iface.cpp')
    def comp(cmd):
        for attempt in (0, 1):
            rc, o, e = core.run_proc(cmd, timeout=600)
            if rc is not None and rc >= 0 and 'Killed' not in e and 'internal compiler error' not in e: return rc, e
        raise core.Infra('compiler gave no answer: ' + e[-300:])
    def table(cxx, std):
        exe = os.path.join(ctx.tmp, 'iface_%s_%s' % (cxx[:3], std)); base = [cxx] + core.STD + core.NOASM + ['-std=' + std, '-O0']
        rc, e = comp(base + [src, '-o', exe])
        if rc: ctx.violate('table:' + cxx, 'C32: the table of call shapes does not compile with %s -std=%s: %s' % (cxx, std, core.first_errors(e)), kind='table'); return
        rc, o, e = core.run_proc([exe], timeout=120)
        lines = o.splitlines()
        if rc or not lines or lines[-1] != '= %d' % (len(lines) - 1): raise core.Infra('table ended with %s' % rc)
        with ctx.lock: ctx.evals += len(lines) - 1
        ctx.count('questions_' + cxx, len(lines) - 1)
        n = dict(A=0, R=0); refuse = []
        for l in lines[:-1]:
            got, want, s, t, text = l.split(' ', 4); n[want] += 1
            if got == want: continue
            if want == 'A': ctx.violate('refused:%s:%s' % (text[:80], t), 'C32: %s refuses %s (type %s of its list)' % (cxx, text, t), shape=text, type=t, kind='table')
            else: refuse.append((int(s), int(t), text))
        ctx.count('must_be_accepted', n['A']); ctx.count('must_be_refused', n['R'])
        with ctx.lock: ctx.distinct = max(ctx.distinct, len(set(lines)))
        # what the signature does not refuse may still be refused inside: compile it
        def confirm(x):
            s, t, text = x
            rc, e = comp(base + ['-fsyntax-only', '-DCONFIRM_S=%d' % s, '-DCONFIRM_T=%d' % t, src])
            ctx.count('refused_inside' if rc else 'accepted')
            if rc == 0: ctx.violate('accepted:%s:%d' % (text[:80], t), 'C32: %s accepts %s with type %d of the list of those that are no bytes (or too large)' % (cxx, text, t), shape=text, type=t, kind='table')
        return [pool.submit(confirm, x) for x in refuse]
    def example(i, cxx, flags, asm_on):
        src = os.path.join(core.VERIF, 'prog/doc/%d.cpp' % i); exe = os.path.join(ctx.tmp, 'doc%d_%s_%d' % (i, cxx[:3], asm_on))
        rc, e = comp([cxx] + core.STD + (core.ASMDEF if asm_on else core.NOASM) + flags + [src] + (asm if asm_on else []) + ['-o', exe])
        if rc: ctx.violate('example:%d:%s' % (i, cxx), 'C32: documented example %d does not build with %s: %s' % (i, cxx, core.first_errors(e)), example=src, kind='example'); return
        rc, o, e = core.run_proc([exe], timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=1'))
        want = open(src[:-4] + '.out').read()
        if o + 'exit %s\n' % rc != want: ctx.violate('example:%d:%s' % (i, cxx), 'C32: documented example %d behaves differently: got %r (exit %s) %s' % (i, o[:300], rc, e[-300:]), example=src, kind='example')
        with ctx.lock: ctx.evals += 1; ctx.distinct += 1
        ctx.count('examples_run'); os.unlink(exe)
    N = len(glob.glob(os.path.join(core.VERIF, 'prog/doc/*.cpp')))
    with ThreadPoolExecutor(max_workers=core.NCPU) as pool:
        fs = [pool.submit(table, c, s) for c in (core.GXX, core.CLANG) for s in q(('c++20',), ('c++20', 'gnu++20', 'c++23'))]
        for i in range(N):
            fs.append(pool.submit(example, i, core.GXX, ['-O2'], True))
            fs.append(pool.submit(example, i, core.CLANG, ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], False))
            if core.THOROUGH: fs += [pool.submit(example, i, core.GXX, ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], True), pool.submit(example, i, core.CLANG, ['-O3'], True)]
        while fs:
            try: r = fs.pop(0).result()
            except core.Infra as x: ctx.errors.append(str(x)); continue
            if r: fs += r
    ctx.samples += ['digest<sha_2_256>(x) with 15 accepted and 41 refused types', 'digest<sha_2_256, std::array<char, 33>>(v) must not compile', 'example 1: authenticated encryption using containers']
    return ('one question (call shape and type, size, constant, or copy and move of a class) or one documented example in one build', ['what is refused by an error inside the library counts as refused'])
