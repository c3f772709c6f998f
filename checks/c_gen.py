# C31: the generator of test programs, and the test interfaces (milo/primitive/*/test.h) those programs are made of.
# Configurations are made at random with vectors from python's own implementations; the programs generated from them are
# built and run over implementations of which the environment may spoil one result: the program has to notice each.
from . import core, check, q, ALGS, PYALG, HAS_NI, chacha_py, chacha_block_py, poly_py, hkdf_py, pbkdf_py
import os, random, json, hashlib, hmac as pyhmac, base64, struct, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
MN = ['sha_1_160', 'sha_2_224', 'sha_2_256', 'sha_2_384', 'sha_2_512', 'sha_2_512_224', 'sha_2_512_256']


def generate(cfg, path, out):
    """Run the tool as its console script does. True when it made a program."""
    with open(path, 'w') as f: json.dump(cfg, f)
    tool = os.path.join(core.REPO, 'tool/codegen')
    r = subprocess.run(['python3', '-B', '-c', 'import sys; sys.path.insert(0, %r); import main; main.main()' % tool, '--config-path', path, '--output-path', out], capture_output=True, text=True, cwd=os.path.dirname(path))
    return r.returncode == 0 and os.path.exists(out), (r.stderr.strip().splitlines() or [''])[-1]


def H(b): return b.hex()


def scheme_cases(r):
    """(name, scheme, wrapper, implementations, function making a vector and the bytes the implementation has to produce)"""
    def size(n=140): return r.choice([0, 1, r.randrange(n), r.randrange(n), 15, 16, 17, 64, 65])
    def by(n=None): return r.randbytes(size() if n is None else n)
    def impls(i, fmt, ni=True): return ['milo::primitive::' + fmt % (MN[i] + s) for s in ['', '_sw'] + (['_hw_x86_64_ni'] if ni and HAS_NI[i] and r.random() < .5 else [])]
    def hashv(i):
        def f():
            m = by(); d = hashlib.new(PYALG[i], m).digest(); return dict(message=H(m), digest=H(d)), [d]
        return f
    def macv(i):
        def f():
            k, m = by(), by(); d = pyhmac.new(k, m, PYALG[i]).digest(); return dict(key=H(k), message=H(m), digest=H(d)), [d]
        return f
    def polyv():
        k, m = by(32), by(); d = poly_py(k, m); return dict(key=H(k), message=H(m), digest=H(d)), [d]
    def hkdfv(i):
        h = lambda *a: hashlib.new(PYALG[i], *a)
        def f():
            a, s, n = by(), by(), by(); d = hkdf_py(h, a, s, n, r.choice([1, 20, 33, 64, 65, 200])); return dict(ikm=H(a), salt=H(s), info=H(n), key=H(d)), [d]
        return f
    def pbkdfv(i):
        h = lambda *a: hashlib.new(PYALG[i], *a)
        def f():
            a, s, n = by(), by(), r.choice([1, 2, 3, 5, 257]); d = pbkdf_py(h, a, s, n, r.choice([1, 20, 33, 64, 65, 150])); return dict(ikm=H(a), salt=H(s), iterations=n, key=H(d)), [d]
        return f
    def chachav(dec):
        def f():
            k, iv, m = by(32), by(16), by(); iv = r.choice([b'\0', b'\1', b'\xfe'])[:1] + iv[1:]; c = chacha_py(k, struct.unpack('<I', iv[:4])[0], iv[4:], m)
            return dict(key=H(k), iv=H(iv), plaintext=H(m), ciphertext=H(c)), [m if dec else c]
        return f
    def aeadv(dec):
        def f():
            k, iv, a, m = by(32), by(12), by(), by(); c = chacha_py(k, 1, iv, m); pad = lambda b: b'\0' * (-len(b) % 16)
            d = poly_py(chacha_block_py(k, 0, iv)[:32], a + pad(a) + c + pad(c) + struct.pack('<QQ', len(a), len(m)))
            return dict(key=H(k), iv=H(iv), aad=H(a), plaintext=H(m), ciphertext=H(c), digest=H(d)), [m if dec else c, d]
        return f
    def codecv(b, dec):
        def f():
            m = by(r.choice([size(), r.randrange(150, 400)])); t = base64.b64encode(m).decode() if b == 64 else (r.choice([str, str.upper])(m.hex()) if dec else m.hex())
            return (dict([('from', t), ('to', H(m))]), [m]) if dec else (dict([('from', H(m)), ('to', t)]), [t.encode()])
        return f
    out = []
    ALIAS = lambda l: ['milo::primitive::' + x for x in l]
    for i in q(sorted(r.sample(range(7), 3)), list(range(7))): out.append(('hash-' + ALGS[i], 'test-primitive-hash', 'digesting', impls(i, 'hash_%s'), hashv(i)))
    for i in q([r.randrange(7)], list(range(7))): out.append(('hmac-' + ALGS[i], 'test-primitive-mac', 'digesting', impls(i, 'mac_hmac_%s'), macv(i)))
    for i in q([r.randrange(7)], list(range(7))): out.append(('hkdf-' + ALGS[i], 'test-primitive-kdf-hkdf', 'deriving', impls(i, 'kdf_hkdf_hmac_%s'), hkdfv(i)))
    for i in q([r.randrange(7)], list(range(7))): out.append(('pbkdf-' + ALGS[i], 'test-primitive-kdf-pbkdf-2', 'deriving', impls(i, 'kdf_pbkdf_2_hmac_%s'), pbkdfv(i)))
    out.append(('poly', 'test-primitive-mac', 'digesting', ALIAS(['mac_poly_1305', 'mac_poly_1305_sw']), polyv))
    for d in (0, 1):
        w = ['encrypt', 'decrypt'][d]; c = ['encode', 'decode'][d]
        out.append(('chacha-' + w, 'test-primitive-cipher-' + w, 'ciphering', ALIAS(['cipher_chacha_20', 'cipher_chacha_20_sw']), chachav(d)))
        out.append(('aead-' + w, 'test-primitive-aead-' + w, 'sealing', ALIAS(['aead_chacha_20_poly_1305', 'aead_chacha_20_sw_poly_1305_sw']), aeadv(d)))
        for b in (16, 64): out.append(('base%d-%s' % (b, c), 'test-primitive-codec-' + c, 'coding', ALIAS(['codec_base_%d' % b]), codecv(b, d)))
    return out


RESULT = {'hash': ['digest'], 'mac': ['digest'], 'kdf-hkdf': ['key'], 'kdf-pbkdf-2': ['key'], 'cipher-encrypt': ['ciphertext'], 'cipher-decrypt': ['plaintext'], 'aead-encrypt': ['ciphertext', 'digest'],
          'aead-decrypt': ['plaintext', 'digest', 'aad'], 'codec-encode': ['to'], 'codec-decode': ['to']}


def spoil_text(r, t, how):
    """Another value for a hexadecimal or text field: one digit changed, one byte less, one byte more."""
    if how == 0 and t:
        i = r.choice([0, len(t) - 1, r.randrange(len(t))])
        return t[:i] + r.choice([c for c in '0123456789abcdef' if c != t[i].lower()]) + t[i + 1:]
    if how == 1 and len(t) >= 2: return t[:-2]
    return t + '5a'


@check('C31')
def c31(ctx):
    r = random.Random('%d C31' % core.SEED); asm = ctx.asm(); sem = threading.Semaphore(core.NCPU); lock = threading.Lock()
    incl = '-I' + ctx.tmp
    def cc(args, timeout=600):
        for attempt in (0, 1):
            with sem: rc, o, e = core.run_proc(['g++'] + core.STD + core.ASMDEF + [incl] + args, timeout=timeout)
            if rc is None or rc < 0 or 'Killed' in e or 'internal compiler error' in e: continue
            return rc, e
        raise core.Infra('compiler gave no answer: ' + e[-300:])
    def note(ev, k=None, n=1):
        with lock: ctx.evals += ev; ctx.distinct += ev
        if k: ctx.count(k, n)
    def bad(key, msg, cfg): ctx.violate(key, 'C31 %s: %s' % (key, msg), config=cfg, kind='generated')
    def program(name, scheme, wrap, impls, mk, seed, rounds):
        r = random.Random(seed); tag = name.replace('-', '_') + '_%d' % rounds
        hdr = os.path.join(ctx.tmp, tag + '.h'); names = ['vfa::impl', 'vfb::impl', 'vfa::other']    # names alike in their first or last part
        with open(hdr, 'w') as f:
            f.write('#pragma once\n#include <fault.h>\nnamespace milo::primitive { %s }\n' % ' '.join('namespace %s { using %s = ::vf::%s<%s, %d>; }' % (*names[k].split('::'), wrap, t, k) for k, t in enumerate(impls)))
        n = r.randrange(3, 8); vecs, want = [], []
        ids = r.sample(range(1, 100), n); ids[r.randrange(n)] = r.choice([2 ** 32, 2 ** 40, 2 ** 63])
        for k in range(n): v, w = mk(); vecs.append(dict(id=ids[k], **v)); want.append(w)
        if wrap == 'coding' and all(x for w in want for x in w): k = r.randrange(n); vecs[k].update({'from': '', 'to': ''}); want[k] = [b'']
        cut = sorted(r.sample(range(n + 1), 2)); groups = [vecs[:cut[0]], vecs[cut[0]:cut[1]], vecs[cut[1]:]]
        def config(cpl, run, groups): return dict(scheme=scheme, payload=dict(impl=dict(cpltime=cpl, runtime=run), include=['<%s.h>' % tag], vectors=[dict(data=g) for g in groups]))
        run = names[:len(impls)]
        cfg = config(run, run, groups); src = os.path.join(ctx.tmp, tag + '.cpp'); exe = os.path.join(ctx.tmp, tag)
        ok, why = generate(cfg, os.path.join(ctx.tmp, tag + '.json'), src)
        if not ok: bad(name + ':generate', 'no program is made of a valid configuration: ' + why, cfg); return
        note(1, 'programs_generated')
        nv = sum(1 for w in want for x in w if x)
        # compile time
        const = ['-fsyntax-only', '-DMILO_TEST_CONSTEXPR', '-fconstexpr-ops-limit=4000000000', '-fconstexpr-loop-limit=100000000']
        rc, e = cc(const + [src])
        if rc: bad(name + ':constant', 'the compile time tests of right vectors fail: ' + core.first_errors(e), cfg); return
        note(1, 'compile_time_right')
        if nv:
            for k in q([r.randrange(len(impls))], range(len(impls))):
                rc, e = cc(const + ['-DVF_CONST=%d' % k, src])
                if rc == 0: bad(name + ':constant-impl', 'the compile time tests pass although implementation %d is always wrong in constant evaluation' % k, cfg)
                note(1, 'compile_time_wrong_implementation')
        fields = RESULT[scheme[len('test-primitive-'):]]
        for how in (0, r.choice([1, 2]) if wrap == 'digesting' or wrap == 'coding' else 2):
            k = r.choice([0, n - 1, r.randrange(n)]); v2 = [dict(v) for v in vecs]; fd = r.choice(fields); h2 = how
            if not v2[k][fd]: h2 = 2
            if wrap == 'deriving': h2 = 0 if v2[k][fd] else 2      # the number of bytes asked for is that of the vector
            v2[k][fd] = spoil_text(r, v2[k][fd], h2)
            bcfg = config(run, run, [v2[:cut[0]], v2[cut[0]:cut[1]], v2[cut[1]:]]); bs = src[:-4] + '_bad%d.cpp' % how
            ok, why = generate(bcfg, bs[:-4] + '.json', bs)
            if not ok: continue     # refused
            rc, e = cc(const + [bs])
            if rc == 0: bad(name + ':constant-wrong', 'a wrong %s in vector %d passes the compile time tests' % (fd, k), bcfg)
            note(1, 'compile_time_wrong')
        # run time
        rc, e = cc(['-O1', src] + asm + ['-o', exe])
        if rc: bad(name + ':build', 'the generated program does not build: ' + core.first_errors(e), cfg); return
        log = exe + '.log'
        def go(**env):
            for attempt in (0, 1):
                with sem: rc, o, e = core.run_proc([exe], env=dict({k: str(v) for k, v in env.items()}, PATH=os.environ.get('PATH', '')), timeout=300)
                if rc is not None: return rc
            raise core.Infra(name + ': generated program does not end')
        rc = go(VF_LOG=log)
        if rc: bad(name + ':right', 'the program fails (%s) although every vector is right' % rc, cfg); return
        note(1, 'run_time_right')
        lines = open(log).read().splitlines(); calls = [int(x) for x in lines[0].split()][:8]
        for t in range(len(impls)):
            got = {l[2:] for l in lines[1:] if l.startswith('%d ' % t)}
            for k, w in enumerate(want):
                for x in w:
                    if x and x.hex() not in got: bad(name + ':vector', 'implementation %d was never asked for vector %d (id %d)' % (t, k, ids[k]), cfg)
        for t in range(len(impls)):
            at = sorted(set(list(range(min(nv, calls[t]))) + [max(0, calls[t] - 1)])) if calls[t] else []
            for a in at:
                for kind in ((0, 1, 2) if wrap == 'coding' and 'decode' in name else (0, 1) if wrap == 'coding' else (0,)):
                    env = dict(VF_TAG=t, VF_AT=a, VF_KIND=kind, VF_POS=r.choice([0, -1, 15, 63, 64, r.randrange(400)]) & 0xffffffff, VF_XOR=1 << r.randrange(8))
                    if go(**env) == 0: bad(name + ':missed', 'the program passes although result %d of implementation %d of %d is wrong (%s)' % (a, t, calls[t], env), cfg)
                    note(1, 'spoiled_results')
            # From every so many results a copy of the process goes on with that one spoiled, and has to fail.
            if calls[t]:
                rc = go(VF_TAG=t, VF_FORK=max(1, calls[t] // q(700, 6000)), VF_SEED=r.getrandbits(40), VF_LOG=log)
                try: forks, missed, at = map(int, open(log).read().splitlines()[1].split())
                except (OSError, ValueError, IndexError): raise core.Infra(name + ': no answer from the spoiled copies')
                if rc: raise core.Infra(name + ': the program fails (%s) with copies of itself' % rc)
                if missed: bad(name + ':missed', 'the program passes although result %d of implementation %d of %d is wrong (%d of %d such copies pass)' % (at, t, calls[t], missed, forks), cfg)
                note(forks, 'spoiled_copies', forks)
            if wrap == 'coding' and 'decode' in name:
                if go(VF_EMPTY=t) == 0: bad(name + ':missed-empty', 'the program passes although implementation %d refuses the empty text' % t, cfg)
                note(1, 'refused_empty_texts')
        # a vector whose id is 0
        if rounds == 0:
            k = r.randrange(n); v2 = [dict(v) for v in vecs]; v2[k]['id'] = 0; zc = config([], [run[0]], [v2]); zs = src[:-4] + '_zero.cpp'
            ok, why = generate(zc, zs[:-4] + '.json', zs)
            if ok:
                rc, e = cc(['-O1', zs] + asm + ['-o', exe])
                if rc: bad(name + ':zero-build', 'the program of a configuration with id 0 does not build', zc)
                else:
                    j = sum(1 for w in want[:k] for x in w if x); m = [i for i, x in enumerate(want[k]) if x]
                    if m and go(VF_TAG=0, VF_AT=j + m[0]) == 0: bad(name + ':zero', 'the program passes although the vector with id 0 does not match', zc)
            note(1, 'id_zero')
        # no implementation at all: nothing is tested, so this must not pass
        if rounds == 0:
            es = src[:-4] + '_none.cpp'; ok, why = generate(config([], [], groups), es[:-4] + '.json', es)
            if ok:
                rc, e = cc(['-O0', es] + asm + ['-o', exe])
                if rc == 0 and go() == 0: bad(name + ':none', 'a program that tests no implementation passes', None)
            note(1, 'no_implementation')
        with ctx.lock: ctx.samples.append('%s: %d vectors, %s results of the implementations' % (name, n, calls[:len(impls)]))
        for p in (exe, src):
            if os.path.exists(p): os.unlink(p)
    jobs = []
    for k in range(q(1, 3)):
        for name, scheme, wrap, impls, mk in scheme_cases(r):
            jobs.append((name, scheme, wrap, impls, mk, r.getrandbits(60), k))
    with ThreadPoolExecutor(max_workers=core.NCPU * 2) as ex:
        for f in [ex.submit(program, *j) for j in jobs]:
            try: f.result()
            except core.Infra as x: ctx.errors.append(str(x))
    return ('one generated program run, or compiled at compile time, with one particular result of one implementation (or one vector) wrong, or all right', ['python 3.12 runs the tool (it asks for 3.10)'])
