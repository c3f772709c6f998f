"""C23: programs of several files; the package."""
import os, random, re, subprocess, shutil, concurrent.futures as cf
from . import check, core, q, with_selftest, selftest
PUBLIC = ['container.h', 'def.h', 'error.h', 'internal.h', 'literal.h', 'meta.h', 'option.h'] + ['primitive/%s/%s.h' % x for x in (
    ('aead', 'apie'), ('aead', 'chacha'), ('aead', 'test'), ('cipher', 'apie'), ('cipher', 'chacha'), ('cipher', 'test'), ('codec', 'apie'), ('codec', 'base'), ('codec', 'test'), ('hash', 'apie'), ('hash', 'sha'), ('hash', 'test'),
    ('kdf', 'apie'), ('kdf', 'hkdf'), ('kdf', 'pbkdf'), ('kdf', 'test'), ('mac', 'apie'), ('mac', 'hmac'), ('mac', 'poly'), ('mac', 'test'))]
P = 'primitive/'
NEEDS = dict(hash=[P + 'hash/apie.h', P + 'hash/sha.h'], hashtest=[P + 'hash/test.h', P + 'hash/sha.h'], hmac=[P + 'mac/apie.h', P + 'mac/hmac.h', P + 'hash/sha.h'], poly=[P + 'mac/apie.h', P + 'mac/poly.h'],
             hkdf=[P + 'kdf/apie.h', P + 'kdf/hkdf.h', P + 'mac/hmac.h', P + 'hash/sha.h'], pbkdf=[P + 'kdf/apie.h', P + 'kdf/pbkdf.h', P + 'mac/hmac.h', P + 'hash/sha.h'], cipher=[P + 'cipher/apie.h', P + 'cipher/chacha.h'],
             aead=[P + 'aead/apie.h', P + 'aead/chacha.h'], codec=[P + 'codec/apie.h', P + 'codec/base.h'], literal=['literal.h'], error=['error.h'])
NEEDS['def'] = ['def.h']


def headers():
    found = []
    root = os.path.join(core.REPO, 'src/milo')
    for d, _, fs in sorted(os.walk(root)):
        r = os.path.relpath(d, root)
        if r.split('/')[0] == 'internal' or 'detail' in r.split('/'): continue
        found += [os.path.normpath(os.path.join(r, f)) for f in fs if f.endswith('.h')]
    return sorted(set(found) | set(PUBLIC))


def run(cmd, timeout=600, cwd=None, env=None):
    for attempt in (0, 1):
        rc, o, e = core.run_proc(cmd, timeout=timeout, cwd=cwd, env=env)
        if rc is not None and rc != -9 and 'Killed' not in e and 'internal compiler error' not in e and 'No space left' not in e: return rc, o, e
    raise core.Infra('%s gave no answer (rc=%s): %s' % (' '.join(cmd[:3]), rc, e[-300:]))


def tally(ctx, n, key):
    with ctx.lock: ctx.evals += n; ctx.distinct += n
    ctx.count(key, n)


def standalone(ctx, pool):
    """Every public header alone, twice, in every order of pairs a random sample has."""
    rnd = random.Random(core.SEED * 7919)
    hs = headers(); sets = [[h] for h in hs] + [rnd.sample(hs, rnd.randint(2, len(hs))) for _ in range(q(6, 60))]
    confs = [(c, s, a) for c in (core.GXX, core.CLANG) for s in q(('c++20',), ('c++20', 'gnu++20', 'c++23', 'gnu++23')) for a in q((True,), (True, False))]
    def one(i, hset, c, std, asm):
        f = os.path.join(ctx.tmp, 'h%d.cpp' % i)
        with open(f, 'w') as o: o.write(''.join('#include <milo/%s>\n' % h for h in hset) + ''.join('#include <milo/%s>\n' % h for h in reversed(hset)) + 'int unit_%d;\n' % i)
        rc, o, e = run([c, '-std=' + std, '-fsyntax-only', '-I' + os.path.join(core.REPO, 'src')] + (core.ASMDEF if asm else core.NOASM) + [f])
        name = '+'.join(hset[:3]) + ('...' if len(hset) > 3 else '')
        if rc: ctx.violate('header:%s' % name, 'a unit including only %s does not compile with %s -std=%s: %s' % (', '.join(hset), c, std, core.first_errors(e)), kind='header', headers=hset, compiler=c, std=std)
        tally(ctx, 1, 'header_units_compiled')
    i = 0; fs = []
    for s in sets:
        for c in confs: fs.append(pool.submit(one, i, s, *c)); i += 1
    ctx.samples.append('units of one header each: %s' % ', '.join(hs[:5]))
    return fs


def program(ctx, pool, n):
    """A program of several units, each with its own headers, compiler, standard and optimisation."""
    rnd = random.Random(core.SEED * 104729 + n); d = os.path.join(ctx.tmp, 'prog%d' % n); os.makedirs(d)
    asm = n % 3 != 2; units = q(5, 7); plug = n % 2 == 0; desc = []
    def unit(k, main=False, plugin=False):
        names = list(NEEDS) if main else rnd.sample(list(NEEDS), rnd.randint(2, 6))
        inc = []
        for t in names: inc += [h for h in NEEDS[t] if h not in inc]
        for h in rnd.sample(PUBLIC, rnd.randint(0, 4)): inc += [h] if h not in inc else []
        rnd.shuffle(inc); lib = ''.join('#include <milo/%s>\n' % h for h in inc)
        s = '#define TU %d\n#define SEED %dull\n' % (k, rnd.getrandbits(40)) + ''.join('#define HAVE_%s 1\n' % t for t in names) + '#define TESTS %s\n' % ' '.join('ONE(%s)' % t for t in names)
        s += lib + '#include "prog/tu.inc"\n' if rnd.random() < .5 or main else '#include "ref.h"\n#include <algorithm>\n#include <iostream>\n' + lib + '#include "prog/tu.inc"\n'
        return s, names
    srcs = []; info = {}
    for k in range(1, units): srcs.append((k, *unit(k)))
    s, names = unit(0, main=True); info = {k: nm for k, _, nm in srcs}; info[0] = names
    for k, nm in sorted(info.items()):
        s += 'void prog_run_%d(const char*, u64);\n' % k
        if 'hash' in nm: s += 'shared_hash prog_hash_%d(shared_hash, const bytes&);\n' % k
        if 'aead' in nm: s += 'void prog_aead_%d(shared_aead&, const bytes&, bytes&);\n' % k
    s += 'static void (*RUNS[])(const char*, u64) = {%s};\n' % ', '.join('prog_run_%d' % k for k in sorted(info))
    s += 'static shared_hash (*HASHES[])(shared_hash, const bytes&) = {%s};\n' % ', '.join('prog_hash_%d' % k for k, nm in info.items() if 'hash' in nm)
    s += 'static void (*AEADS[])(shared_aead&, const bytes&, bytes&) = {%s};\n' % ', '.join('prog_aead_%d' % k for k, nm in info.items() if 'aead' in nm)
    s += '#include "prog/main.inc"\n'; srcs.append((0, s, names))
    if plug:
        ps, pn = unit(units); srcs.append((units, ps + 'extern "C" __attribute__((visibility("default"))) void plugin() { prog_run_%d("plugin", 300); }\n' % units, pn))
    cmds = []
    for k, s, nm in srcs:
        f = os.path.join(d, 'tu%d.cpp' % k); open(f, 'w').write(s)
        c = rnd.choice([core.GXX, core.CLANG]); o = rnd.choice(['-O0', '-O1', '-O2', '-O2', '-O3', '-Os']); std = rnd.choice(['c++20', 'gnu++20', 'c++20', 'c++23'])
        desc.append('%s %s %s: %s' % (os.path.basename(c), o, std, ' '.join(nm)))
        cmds.append([c, '-std=' + std, o, '-w', '-pthread', '-I' + os.path.join(core.REPO, 'src'), '-I' + core.H] + (['-fPIC', '-fvisibility=hidden'] if k == units else ['-fPIE']) + (core.ASMDEF if asm else core.NOASM) + ['-c', f, '-o', f[:-3] + 'o'])
    fs = [pool.submit(run, c) for c in cmds]; text = '; '.join(desc); asm_objs = ctx.asm() if asm else []
    def rest():
        ok = True
        for f, (k, s, nm), c in zip(fs, srcs, cmds):
            rc, o, e = f.result()
            if rc: ok = False; ctx.violate('unit:%d' % n, 'unit %d of program %d (%s) does not compile: %s' % (k, n, ' '.join(nm), core.first_errors(e)), kind='unit', source=s, command=c)
        if not ok: return
        order = ['tu%d.o' % k for k, _, _ in srcs if k != units]; rnd.shuffle(order); exe = os.path.join(d, 'prog'); so = os.path.join(d, 'plugin.so')
        rc, o, e = run([core.GXX, '-pthread', '-rdynamic'] + [os.path.join(d, x) for x in order] + asm_objs + ['-ldl', '-o', exe])
        if rc: ctx.violate('link:program', 'program %d of %s does not link: %s' % (n, text, core.first_errors(e)), kind='link', units=[s for _, s, _ in srcs]); return
        args = []
        if plug:
            rc, o, e = run([core.GXX, '-shared', os.path.join(d, 'tu%d.o' % units)] + asm_objs + ['-o', so])
            if rc: ctx.violate('link:plugin', 'unit %d of program %d does not link as a shared library: %s' % (units, n, core.first_errors(e)), kind='link', units=[s for _, s, _ in srcs]); return
            args = [so]
        rc, o, e = run([exe] + args, timeout=200); m = re.search(r'NOTES (\d+) BAD (\d+)', o)
        if rc != 0 or not m or int(m.group(2)):
            if rc == 4 and 'DLOPEN' in o: ctx.violate('dlopen', 'program %d: its library does not load: %s' % (n, o[-300:]), kind='run', units=[s for _, s, _ in srcs]); return
            if rc is None: raise core.Infra('program %d did not end' % n)
            ctx.violate('run:' + (re.sub(r'\d+', '#', o.split('\n')[0])[:100] if 'BAD unit' in o else 'rc %s' % rc), 'program %d (units in the order %s: %s) ended with %s: %s %s' % (n, ' '.join(order), text, rc, o[:600].replace('\n', ' | '), e[-300:]), kind='run', units=[s for _, s, _ in srcs]); return
        tally(ctx, int(m.group(1)), 'results_checked_in_programs'); ctx.count('programs'); ctx.count('program_units', len(srcs)); ctx.samples.append('program of units %s, linked as %s' % (text[:250], ' '.join(order)))
    return rest


CONSUMER = '''cmake_minimum_required(VERSION 3.23)
project(consumer LANGUAGES CXX)
%s
add_library(part STATIC part.cpp)
target_link_libraries(part PUBLIC milo)
add_library(shared SHARED shared.cpp)
target_link_libraries(shared PRIVATE milo)
add_executable(consumer main.cpp)
target_link_libraries(consumer PRIVATE part milo)
add_executable(consumer2 main2.cpp)
target_link_libraries(consumer2 PRIVATE shared)
'''
PART = '''#include <milo/literal.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <string>
namespace mp = milo::primitive;
std::string NAME(const std::string& s)
{
    using namespace milo::literal; auto key = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"_base_16; auto iv = "000102030405060708090a0b"_base_16;
    auto [c, t] = mp::aead::encrypt<mp::aead::chacha_20_poly_1305<>, std::string>(key, iv, "aad"_cv, s); auto b = mp::hash::digest<mp::hash::sha_2_256<>>(s); auto d = mp::hash::digest<mp::hash::sha_1_160<>>(s);
    return mp::codec::encode<mp::codec::base_16<>, std::string>(c) + mp::codec::encode<mp::codec::base_16<>, std::string>(t) + mp::codec::encode<mp::codec::base_16<>, std::string>(b) + mp::codec::encode<mp::codec::base_16<>, std::string>(d);
}
'''


def package(ctx, embed, asm, cxx, bt):
    """The library as a subdirectory or installed, seen from another project."""
    name = '%s.%s.%s.%s' % ('embedded' if embed else 'installed', 'asm' if asm else 'noasm', os.path.basename(cxx), bt); d = os.path.join(ctx.tmp, 'pkg_' + name); os.makedirs(d + '/app'); src = d + '/milo'
    import hashlib
    shutil.copytree(core.REPO, src, ignore=shutil.ignore_patterns('.git', '_build*', 'media', 'data'), symlinks=True)
    M = 'the quick brown fox ' * 40; ct = core_aead(M.encode()); want = ct.hex() + hashlib.sha256(M.encode()).hexdigest() + hashlib.sha1(M.encode()).hexdigest()
    with open(d + '/app/part.cpp', 'w') as f: f.write('#define NAME part\n' + PART)
    with open(d + '/app/shared.cpp', 'w') as f: f.write('#define NAME shared\n' + PART)
    mains = '#include <iostream>\n#include <string>\n' + ''.join('#include <milo/%s>\n' % h for h in headers())
    with open(d + '/app/main.cpp', 'w') as f: f.write(mains + 'std::string part(const std::string&);\nstatic const std::string early = part("early");\nint main() { std::string m; for (int i = 0; i < 40; i++) m += "the quick brown fox "; std::cout << (part("early") == early ? part(m) : "early differs") << std::endl; }\n')
    with open(d + '/app/main2.cpp', 'w') as f: f.write('#include <iostream>\n#include <string>\nstd::string shared(const std::string&);\nint main() { std::string m; for (int i = 0; i < 40; i++) m += "the quick brown fox "; std::cout << shared(m) << std::endl; }\n')
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG')}; env['CXX'] = cxx; opt = ['-DCMAKE_BUILD_TYPE=' + bt, '-G', 'Ninja']; asmopt = ['-DMILO_ASM=' + ('ON' if asm else 'OFF')]
    def step(what, cmd, cwd=d):
        rc, o, e = run(cmd, cwd=cwd, env=env, timeout=800)
        if rc: ctx.violate('package:%s:%s' % (name, what), '%s: %s fails: %s' % (name, what, (core.first_errors(o + '\n' + e) if 'error' in (o + e).lower() else (o + e)[-500:])), kind='package', command=cmd, output=(o + e)[-3000:]); raise StopIteration
        return o
    try:
        if embed: use = 'add_subdirectory(%s milo)' % src; pre = asmopt
        else:
            step('configuring the library', ['cmake', '-S', src, '-B', d + '/lb', '-DCMAKE_INSTALL_PREFIX=' + d + '/prefix'] + opt + asmopt); step('building the library', ['cmake', '--build', d + '/lb', '-j4']); step('installing the library', ['cmake', '--install', d + '/lb'])
            shutil.rmtree(src); use = 'find_package(milo CONFIG REQUIRED)'; pre = ['-DCMAKE_PREFIX_PATH=' + d + '/prefix']
        with open(d + '/app/CMakeLists.txt', 'w') as f: f.write(CONSUMER % use)
        step('configuring a project that uses it', ['cmake', '-S', d + '/app', '-B', d + '/ab'] + opt + pre); step('building a project that uses it', ['cmake', '--build', d + '/ab', '-j4'])
        for exe in ('consumer', 'consumer2'):
            o = step('running a program that uses it', [d + '/ab/' + exe])
            if o.strip() != want: ctx.violate('package:%s:result' % name, '%s: %s printed %s, not %s' % (name, exe, o.strip()[:300], want[:300]), kind='package')
            tally(ctx, 1, 'package_programs_run')
        ctx.samples.append('package: ' + name)
    except StopIteration: pass
    finally: shutil.rmtree(d, ignore_errors=True)


def core_aead(m):
    from . import chacha_py, poly_py, chacha_block_py
    import struct
    key, iv, a = bytes(range(32)), bytes(range(12)), b'aad'; ct = chacha_py(key, 1, iv, m); pad = lambda b: b'\0' * (-len(b) % 16)
    return ct + poly_py(chacha_block_py(key, 0, iv)[:32], a + pad(a) + ct + pad(ct) + struct.pack('<QQ', len(a), len(m)))


@check('C23')
def c23(ctx):
    selftest(ctx)
    with cf.ThreadPoolExecutor(core.NCPU) as pool, cf.ThreadPoolExecutor(3) as p2:
        rests = [program(ctx, pool, n) for n in range(q(4, 24))]
        fs = [p2.submit(package, ctx, *c) for c in q([(True, True, core.CLANG, 'Release'), (False, True, core.GXX, 'Debug')], [(e, a, c, b) for e in (True, False) for a in (True, False) for c in (core.GXX, core.CLANG) for b in ('Debug', 'Release')])]
        fs += standalone(ctx, pool)
        fs += [p2.submit(r) for r in rests]
        for f in fs: f.result()
    return ('every public header alone and random sets of headers in random orders, each included twice; generated programs of several units with different headers, compilers, standards and optimisation levels, linked in random order, that use every primitive '
            'in constructor functions, initialisers of every kind, threads, plugins being loaded and unloaded, destructors and at the very end, and hand objects from unit to unit, judged by the reference; projects that embed or install the CMake package; distinct by program, unit, moment and call',
            ['gcc 13 and clang 18 with libstdc++ on x86-64 Linux', 'units of one program agree on MILO_INTERNAL_ASM, as the package sees to it'])
