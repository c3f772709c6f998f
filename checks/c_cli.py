"""C25: the application, judged by a model of its documented command line."""
from . import check, core, q
import json, os, random, re, hashlib
from concurrent.futures import ThreadPoolExecutor

FAMILY = [('codec-', ['bytes-size']), ('hash-', ['message-size']), ('mac-', ['key-size', 'message-size']), ('kdf-hkdf-', ['ikm-size', 'salt-size', 'info-size', 'key-size']),
          ('kdf-pbkdf-2-', ['ikm-size', 'salt-size', 'iterations', 'key-size']), ('cipher-', ['bytes-size']), ('aead-', ['aad-size', 'bytes-size'])]
ALLP = ['bytes-size', 'message-size', 'key-size', 'ikm-size', 'salt-size', 'info-size', 'iterations', 'aad-size']


def family(name):
    for p, ps in FAMILY:
        if name.startswith(p): return ps
    return None


def build_app(ctx, name, flags, cxx=core.GXX, asm=True):
    out = os.path.join(ctx.tmp, name)
    inc = ['-I' + os.path.join(core.REPO, 'app/include')]
    cmd = [cxx] + core.STD + inc + (core.ASMDEF if asm else core.NOASM) + flags + [os.path.join(core.REPO, 'app/main.cpp'), os.path.join(core.H, 'fakeclock.cpp')] + (ctx.asm() if asm else []) + ['-o', out]
    rc, o, e = core.run_proc(cmd, timeout=800)
    if rc != 0: raise core.Infra('build of the application (%s) failed: %s' % (name, core.first_errors(e)))
    return out


def match(pattern, name): return re.fullmatch('.*'.join(re.escape(x) for x in pattern.split('*')), name, re.S) is not None


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d: raise ValueError('duplicate key ' + k)
        d[k] = v
    return d


def number(s): return int(s) if re.fullmatch(r'[0-9]+', s) and int(s) < 1 << 64 else None


class Bad(Exception): pass


def model(argv, lists):
    """What the documentation says a command line does: ('fail', words) | ('version',) | ('list', names) | ('bench', names, config by name, verbose)."""
    pos = 0
    def head(p):
        r = []
        while p < len(argv) and argv[p].startswith('--'): r.append(argv[p]); p += 1
        return r
    def command(p):
        while p < len(argv) and argv[p].startswith('-'): p += 1
        if p == len(argv): raise Bad()
        return argv[p], p + 1
    def par(opts, name, default=None):
        for o in opts:
            n, eq, v = o[2:].partition('=')
            if n == name:
                if not eq: raise Bad()
                if v == '': return None   # not specified what an empty value means
                x = number(v)
                if x is None: raise Bad()
                return x
        if default is None: raise Bad()
        return default
    try:
        opts = head(0); adv, verbose = '--advanced' in opts, '--verbose' in opts
        cmd, pos = command(0)
        if cmd == 'version': return ('version',)
        if cmd != 'benchmark': raise Bad()
        o = head(pos); clock, warm, time = par(o, 'cpu-clock', 0), par(o, 'repeats-warm', 128), par(o, 'repeats-time', 1024)
        if None in (clock, warm, time): return None
        cmd, pos = command(pos)
        if cmd != 'primitive': raise Bad()
        pat, pos = command(pos); names = lists[adv]
        if pat == 'list': return ('list', names)
        sel = [n for n in names if match(pat, n)]; o = head(pos); conf = {}
        for n in sel:
            inp = {p: par(o, p) for p in family(n)}
            if any(v is None for v in inp.values()): return None
            if any(v >= 1 << 62 for k, v in inp.items() if k != 'iterations'): raise Bad()
            conf[n] = dict(input=inp, benchmark=dict({'repeats-warm': warm, 'repeats-time': max(time, 1)}, **({'cpu-clock': clock * 1000000} if clock else {})))
        return ('bench', sel, conf, verbose)
    except Bad: return ('fail',)


def near(a, b): return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 1.1e-6 + abs(b) * 1e-9


def judge_metrics(m, conf, step):
    b, i = conf['benchmark'], conf['input']; t, size = b['repeats-time'], None
    n = m.get('duration', {}).get('nanoseconds_per_call')
    if not isinstance(n, (int, float)): return 'no duration'
    size = i['key-size'] if 'ikm-size' in i else i['message-size'] if 'message-size' in i else i['bytes-size'] + i.get('aad-size', 0)   # additional data is processed as well
    total = size * t
    if step is not None and not near(n, step / t): return 'duration %r of a run that took %d ns in %d calls' % (n, step, t)
    ns = step if step is not None else n * t
    want = {'duration'}
    if total and ns: want.add('throughput')
    if total and ns and 'cpu-clock' in b: want.add('cpu')
    if set(m) != want: return 'metrics %s, expected %s' % (sorted(m), sorted(want))
    tol = (lambda a, w: near(a, w)) if step is not None else (lambda a, w: isinstance(a, (int, float)) and abs(a - w) <= 2e-6 + abs(w) * 1e-4)
    if 'throughput' in m and not (set(m['throughput']) == {'gigabytes_per_second', 'megabytes_per_second'} and tol(m['throughput']['gigabytes_per_second'], total / ns) and tol(m['throughput']['megabytes_per_second'], total * 1000 / ns)): return 'throughput %r of %d bytes in %r ns' % (m['throughput'], total, ns)
    if 'cpu' in m and not (set(m['cpu']) == {'cycles_per_call', 'cycles_per_byte'} and tol(m['cpu']['cycles_per_call'], b['cpu-clock'] * ns / 1e9 / t) and tol(m['cpu']['cycles_per_byte'], b['cpu-clock'] * ns / 1e9 / total)): return 'cycles %r for %r ns at %d Hz, %d calls, %d bytes' % (m['cpu'], ns, b['cpu-clock'], t, total)
    return None


def one(ctx, exe, argv, lists, step, kind):
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C.UTF-8', 'ASAN_OPTIONS': 'exitcode=77', 'UBSAN_OPTIONS': 'exitcode=77:halt_on_error=1'}
    if step is not None: env['FAKE_STEP'] = str(step)
    rc, out, err = core.run_proc([exe] + argv, env=env, timeout=120)
    want = model(argv, lists)
    def bad(msg): ctx.violate('cli:' + kind + ':' + re.sub(r'[\d.]+', 'N', msg)[:80], 'milo %s: %s [exit %s, stdout %.200r, stderr %.300r]' % (' '.join(map(repr, argv)), msg, rc, out, err), args=argv, fake_step=step, kind='cli')
    with ctx.lock:
        ctx.evals += 1; ctx.counters['commands:' + kind] = ctx.counters.get('commands:' + kind, 0) + 1
        ctx.seen.add(hashlib.sha1(repr((argv, step, kind)).encode()).hexdigest())
        if ctx.counters['commands:' + kind] <= 2: ctx.samples.append(' '.join(argv)[:150])
    if rc is None:
        rc, out, err = core.run_proc([exe] + argv, env=env, timeout=300)
        if rc is None: raise core.Infra('no answer to ' + ' '.join(argv))
    if rc == 77 or 'Sanitizer' in err or 'runtime error' in err: return bad('sanitizer report: ' + core.san_summary(err))
    if rc < 0 or rc > 2: return bad('crashed')
    if want is None: return
    with ctx.lock: ctx.counters['outcome:' + want[0]] = ctx.counters.get('outcome:' + want[0], 0) + 1
    if want[0] == 'fail':
        if rc == 0: return bad('succeeds where it cannot do what was asked')
        if not err.strip(): return bad('fails without saying why')
        if out.strip(): return bad('prints a result and fails')
        return
    if rc != 0: return bad('fails')
    if want[0] == 'version':
        if not re.fullmatch(r'milo \d+\.\d+\.\d+\n', out): bad('no version')
        return
    if want[0] == 'list':
        if out.split('\n') != want[1] + ['']: bad('different list')
        return
    _, sel, conf, verbose = want
    try: doc = json.loads(out, object_pairs_hook=nodup, parse_constant=lambda c: (_ for _ in ()).throw(ValueError('constant ' + c)))
    except ValueError as x: return bad('no valid JSON: %s' % x)
    if verbose:
        if not isinstance(doc, dict) or set(doc) != {'compiler', 'project', 'command', 'result'}: return bad('unexpected members of the verbose output: %s' % sorted(doc))
        if doc['command'].get('args') != argv or doc['command'].get('dump') != ' '.join(argv): return bad('the verbose output tells another command line')
        if doc['project'].get('name') != 'milo' or not re.fullmatch(r'\d+\.\d+\.\d+', doc['project'].get('version', '')): return bad('project member')
        if not doc['compiler'].get('name') or not doc['compiler'].get('version'): return bad('compiler member')
        doc = doc['result']
    if not sel:
        if doc not in ({}, {'benchmark': {}}, {'benchmark': {'primitive': {}}}): bad('results for a pattern that selects none')
        return
    try: res = doc['benchmark']['primitive']; assert set(doc) == {'benchmark'} and set(doc['benchmark']) == {'primitive'}
    except (KeyError, TypeError, AssertionError): return bad('unexpected structure')
    if set(res) != set(sel): return bad('selected %s, expected %s' % (sorted(set(res) - set(sel))[:4], sorted(set(sel) - set(res))[:4]))
    with ctx.lock: ctx.counters['results'] = ctx.counters.get('results', 0) + len(sel)
    for n in sel:
        r = res[n]
        if set(r) != {'config', 'metrics'} or r['config'] != conf[n]: return bad('%s: config %s, expected %s' % (n, r.get('config'), conf[n]))
        x = judge_metrics(r['metrics'], conf[n], step)
        if x: return bad('%s: %s' % (n, x))


def mkpattern(r, names):
    n = r.choice(names); k = r.randrange(9)
    if k == 0: return n
    if k == 1: return '*'
    if k == 2: return r.choice(FAMILY)[0] + '*'
    if k == 3: return ''.join(r.choice(['*', 'hash', 'sha-', 'mac-', 'hmac', '-2', '-256', '-encrypt', 'chacha', '-', 'code', 'e', '**']) for _ in range(r.randrange(1, 5)))
    s = n
    for _ in range(r.randrange(1, 4)):
        a = r.randrange(len(s) + 1); b = min(len(s), a + r.randrange(0, 12)); s = s[:a] + '*' + s[b:]
    if r.random() < .25: a = r.randrange(len(s)); s = s[:a] + r.choice(['x', '', s[a] * 2]) + s[a + 1:]
    if r.random() < .2: s = s.lstrip('*') or 'hash'
    if r.random() < .2: s = s.rstrip('*') or 'hash'
    return s if s and not s.startswith('-') else '*' + s


def build_probe(ctx):
    """The application with primitives that tell what they are asked and answer. None if the application does not use the names of alias.h."""
    from . import c_asm
    d = os.path.join(ctx.tmp, 'probe'); os.makedirs(d)
    try: names = re.findall(r'using (\w+)\s+=', open(os.path.join(core.REPO, 'src/milo/primitive/detail/alias.h')).read())
    except OSError: names = []
    if not names: return None
    with open(d + '/probe.inc', 'w') as f: f.write(''.join('VH_PROBE(%s)\n' % n for n in names) + ''.join('#define %s vhp_%s\n' % (n, n) for n in names))
    objs, _, _ = c_asm.counting(ctx, False); out = os.path.join(ctx.tmp, 'probed')
    cmd = [core.GXX] + core.STD + ['-I' + os.path.join(core.REPO, 'app/include'), '-I' + d, '-O1', '-w', '-include', os.path.join(core.H, 'probe.h')] + core.ASMDEF + [os.path.join(core.REPO, 'app/main.cpp'), os.path.join(core.H, 'fakeclock.cpp')] + objs + ['-o', out]
    rc, o, e = core.run_proc(cmd, timeout=800)
    return out if rc == 0 else None


def expected(kind, name, f):
    """What a recorded operation should have answered, and the sizes it was given; kind is the benchmark's."""
    from . import chacha_py, poly_py, chacha_block_py, hkdf_py, pbkdf_py
    import hmac, struct, base64
    m = re.search(r'sha-[12]-([0-9-]*[0-9])', name); H = {'160': 'sha1', '224': 'sha224', '256': 'sha256', '384': 'sha384', '512': 'sha512', '512-224': 'sha512_224', '512-256': 'sha512_256'}.get(re.match(r'(512-224|512-256|\d+)', m.group(1)).group(1)) if m else None
    h = lambda *a: hashlib.new(H, *a)
    if kind == 'hash': return h(f[1]).digest(), {'message-size': len(f[1])}
    if kind == 'mac': return (poly_py((f[1] + bytes(32))[:32], f[2]) if 'poly' in name else hmac.new(f[1], f[2], h).digest()), {'key-size': len(f[1]), 'message-size': len(f[2])}
    if kind == 'hkdf': return hkdf_py(h, f[1], f[2], f[3], len(f[0])), {'ikm-size': len(f[1]), 'salt-size': len(f[2]), 'info-size': len(f[3]), 'key-size': len(f[0])}
    if kind == 'pbkdf': return pbkdf_py(h, f[1], f[2], f[3], len(f[0])), {'ikm-size': len(f[1]), 'salt-size': len(f[2]), 'iterations': f[3], 'key-size': len(f[0])}
    if kind in ('encrypt', 'decrypt'): return chacha_py(f[1], int.from_bytes(f[2][:4], 'little'), f[2][4:], f[3]), {'bytes-size': len(f[3])}
    if kind in ('seal', 'open'):
        ct = f[4] if kind == 'open' else f[5]; pad = lambda b: b'\0' * (-len(b) % 16)
        if chacha_py(f[1], 1, f[2], f[4]) != f[5]: return None, {}
        return poly_py(chacha_block_py(f[1], 0, f[2])[:32], f[3] + pad(f[3]) + ct + pad(ct) + struct.pack('<QQ', len(f[3]), len(ct))), {'aad-size': len(f[3]), 'bytes-size': len(f[4])}
    enc = (lambda b: b.hex().encode()) if '-16-' in name else base64.b64encode
    if kind == 'encode': return enc(f[1]), {'bytes-size': len(f[1])}
    if kind == 'decode': return (f[0] if enc(f[0]) == f[1] else None), {'bytes-size': len(f[0])}
    return None, {}


def kind_of(name):
    e = 'decrypt' if name.endswith('decrypt') else 'encrypt'
    return ('encode' if name.endswith('encode') else 'decode') if name.startswith('codec-') else 'hash' if name.startswith('hash-') else 'mac' if name.startswith('mac-') else 'hkdf' if name.startswith('kdf-hkdf') else 'pbkdf' if name.startswith('kdf-') else e if name.startswith('cipher-') else 'open' if e == 'decrypt' else 'seal'


def probe(ctx, exe, name, params, warm, time, i):
    """A benchmark runs the primitive it is named after, with the parameters given, as often as asked."""
    log = os.path.join(ctx.tmp, 'probe.%d.log' % i)
    argv = ['--advanced', 'benchmark', '--repeats-time=%d' % time, '--repeats-warm=%d' % warm, 'primitive', name] + ['--%s=%d' % x for x in params.items()]
    rc, out, err = core.run_proc([exe] + argv, env={'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PROBE_LOG': log, 'FAKE_STEP': '1000'}, timeout=300)
    if rc != 0 or name not in out: return   # judged elsewhere
    try: lines = open(log).read().splitlines(); os.unlink(log)
    except OSError: return
    clocks = [k for k, l in enumerate(lines) if l.split(' ')[1] == 'clock']
    def bad(msg): ctx.violate('probe:' + re.sub(r'\d+', 'N', msg)[:80], 'milo %s: %s' % (' '.join(argv), msg), args=argv, kind='probe', log=lines[:20])
    if len(clocks) != 2 or clocks[1] - clocks[0] < 2:
        ctx.count('probe_blind'); return
    ops = [l.split(' ') for l in lines[clocks[0] + 1:clocks[1]]]; kind = kind_of(name); n = 0
    for o in ops:
        cnt = int(o[0]); f = [int(x) if (o[1] == 'pbkdf' and k == 3) else (b'' if x == '-' else bytes.fromhex(x)) for k, x in enumerate(o[2:])]
        if o[1] != kind: return bad('measures %s operations' % o[1])
        want, sizes = expected(kind, name, f); n += cnt
        if want != f[0]: return bad('the measured operation is not %s: %s' % (name, ' '.join(o)[:300]))
        if any(sizes[k] != params[k] for k in sizes): return bad('measured with %r' % sizes)
    if n != max(time, 1): return bad('%d operations measured for %d repeats' % (n, time))
    before = sum(int(l.split(' ')[0]) for l in lines[:clocks[0]])
    if before < warm: return bad('%d operations before the measurement for %d warm up repeats' % (before, warm))
    c = [[int(x) for x in lines[k].split(' ')[2:]] for k in clocks]; entered = sum(c[1]) - sum(c[0])
    if '-sw' in name and entered: return bad('a software backend enters accelerated routines')
    if '-hw-' in name and not entered and all(params[p] for p in family(name)): return bad('an accelerated backend never enters an accelerated routine')
    with ctx.lock:
        ctx.evals += 1; ctx.counters['probed_benchmarks'] = ctx.counters.get('probed_benchmarks', 0) + 1; ctx.counters['probed_operations'] = ctx.counters.get('probed_operations', 0) + n
        ctx.seen.add(hashlib.sha1(repr(argv).encode()).hexdigest())


@check('C25')
def c25(ctx):
    ctx.seen = set()
    with ThreadPoolExecutor(3) as ex:
        pr = ex.submit(build_probe, ctx)
        fs = [ex.submit(build_app, ctx, n, fl, cxx) for n, fl, cxx in (('plain', ['-O1'], core.GXX), ('asan', ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'], core.GXX))]
        plain, asan = [f.result() for f in fs]; probed = pr.result()
    lists = {}
    for adv in (False, True):
        rc, o, e = core.run_proc([plain] + (['--advanced'] if adv else []) + ['benchmark', 'primitive', 'list'])
        lists[adv] = o.split('\n')[:-1]
        if rc != 0 or len(lists[adv]) < 20 or len(set(lists[adv])) != len(lists[adv]) or any(family(n) is None for n in lists[adv]):
            ctx.violate('cli:list', 'the list of benchmarks is empty, repeats a name or has one of no documented family: exit %s %r %r' % (rc, o[:300], e[:200]), kind='cli'); return ('list', [])
    if not set(lists[False]) <= set(lists[True]) or len(lists[True]) <= len(lists[False]): ctx.violate('cli:advanced', 'the advanced list does not extend the basic one', kind='cli')
    # every primitive the library documents has a benchmark
    for n in ['codec-base-%s-%s' % (b, d) for b in (16, 64) for d in ('encode', 'decode')] + [p + 'sha-' + s for p in ('hash-', 'mac-hmac-', 'kdf-hkdf-hmac-', 'kdf-pbkdf-2-hmac-') for s in ('1-160', '2-224', '2-256', '2-384', '2-512', '2-512-224', '2-512-256')] + ['mac-poly-1305'] + [c + d for c in ('cipher-chacha-20-', 'aead-chacha-20-poly-1305-') for d in ('encrypt', 'decrypt')]:
        if n not in lists[False]: ctx.violate('cli:missing:' + n, '%s is not in the list' % n, kind='cli')
    r = random.Random(core.SEED * 1000003 + 25); work = []
    def params(names, drop=0.0, small=False):
        ps = list(ALLP); r.shuffle(ps); o = []
        for p in ps:
            if r.random() < drop: continue
            v = r.choice([0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 300, 1000]) if not small else r.choice([0, 1, 3, 64, 100])
            if p == 'key-size' and v > 300: v = 300
            if p == 'iterations': v = r.choice([1, 2, 3])
            o.append('--%s=%d' % (p, v))
        if r.random() < .3: o.insert(r.randrange(len(o) + 1), r.choice(['--unknown', '--unknown=5', '--bytes-sizes=9', '--key=3', '--message-size-x=4', '--verbose', '--repeats-time=3', '--cpu-clocks=1']))
        return o
    def bench(reps=True):
        o = ['--repeats-time=%d' % r.choice([0, 1, 2, 3, 7]), '--repeats-warm=%d' % r.choice([0, 1, 2])] if reps else []
        if r.random() < .5: o.append('--cpu-clock=%d' % r.choice([0, 1, 1000, 3500, 5000, 4294967296]))
        if r.random() < .3: o.append(r.choice(['--unknown', '--repeats-timeout=9', '--repeats=5', '--cpu-clock-x=7', '--advanced']))
        r.shuffle(o); return o
    STEPS = [0, 1, 2, 3, 999, 1000, 123456789, 1000000000, 86400 * 10**9, 5 * 10**9]
    def pre(): return [x for x in ('--verbose', '--advanced') if r.random() < .4] + (['--unknown=1'] if r.random() < .1 else [])
    for n in lists[True]: work.append((plain, ['--advanced', 'benchmark'] + bench() + ['primitive', n] + params([n]), r.choice(STEPS), 'exact'))
    for _ in range(q(500, 12000)): work.append((plain, pre() + ['benchmark'] + bench() + ['primitive', mkpattern(r, lists[True])] + params(None, small=True), r.choice(STEPS), 'pattern'))
    for _ in range(q(60, 1500)): work.append((plain, pre() + ['benchmark'] + bench() + ['primitive', mkpattern(r, lists[False])] + params(None, small=True), None, 'realclock'))
    for _ in range(q(20, 100)): work.append((plain, ['benchmark'] + bench(False) + ['primitive', r.choice(lists[False])] + params(None, small=True), r.choice(STEPS), 'defaults'))
    for _ in range(q(200, 3000)): work.append((plain, pre() + ['benchmark'] + bench() + ['primitive', mkpattern(r, lists[True])] + params(None, drop=.3, small=True), r.choice(STEPS), 'missing'))
    for _ in range(q(300, 5000)):
        a = pre() + ['benchmark'] + bench() + ['primitive', r.choice(lists[False])] + params(None, small=True)
        cand = [i for i, x in enumerate(a) if '=' in x]; i = r.choice(cand); n = a[i].split('=')[0]
        a[i] = n + r.choice(['=abc', '=-1', '=1.5', '=12abc', '=0x10', '= 5', '=5 ', '=+5', '=99999999999999999999999999', '=18446744073709551616', '', '=', '=\u00e9', '=1e3', '==3']); work.append((plain, a, r.choice(STEPS), 'invalid'))
    for _ in range(q(40, 300)): 
        p = r.choice([x for x in ALLP if x != 'iterations']); a = ['benchmark', '--repeats-time=1', '--repeats-warm=0', 'primitive', r.choice([n for n in lists[False] if p in family(n)])] + ['--%s=%d' % (y, r.choice([1 << 63, (1 << 64) - 1, 1 << 62])) if y == p else '--%s=1' % y for y in ALLP]; work.append((plain, a, 5, 'huge'))
    NASTY = ['"', '\\', 'a"b', 'C:\\x', '\t', '\n', '\x01', '\x1f', '\x7f', '\u00fc', '\u20ac', '\U0001f600', '', ' ', '{}', '/', "'", '\r\n', '\b\f']
    for _ in range(q(150, 3000)):
        a = ['--verbose'] + (['--' + ''.join(r.choice(NASTY) for _ in range(3))] if r.random() < .5 else []) + ['benchmark'] + bench() + ['primitive', (''.join(r.choice(NASTY) for _ in range(r.randrange(4))) if r.random() < .5 else r.choice(lists[False]))] + params(None, small=True) + [''.join(r.choice(NASTY) for _ in range(r.randrange(4))) for _ in range(r.randrange(3))]
        work.append((plain, a, 1000, 'strings'))
    VOC = ['benchmark', 'primitive', 'list', 'version', 'hash-*', 'codec-base-16-encode', 'aead-*', 'kdf-hkdf-hmac-sha-1-160', '--verbose', '--advanced', '--repeats-time=1', '--repeats-warm=0', '--message-size=5', '--bytes-size=7', '--key-size=3', '--aad-size=2', '--unknown', '*', '--', 'help', '', '--=', '--repeats-time', 'benchmarks', 'Version', '=']
    fuzz = []
    for i in range(q(700, 15000)):
        a = [r.choice(VOC) for _ in range(r.randrange(9))]
        if r.random() < .5: a = ['benchmark', '--repeats-time=1', '--repeats-warm=0', 'primitive'] + a
        fuzz.append(a)
    fuzz += [[], ['version'], ['--verbose', 'version'], ['version', 'extra'], ['benchmark'], ['benchmark', 'primitive'], ['list'], ['benchmark', 'list'], ['--verbose'], ['--help'], ['-h'], ['-'], ['--'], ['benchmark', 'primitive', 'list', '--advanced']]
    for a in fuzz:
        seen = set()   # which of two equal parameters wins is not documented
        a = [x for x in a if not (x.startswith('--') and '=' in x and (x.split('=')[0] in seen or seen.add(x.split('=')[0]) or False))]
        work.append((plain, a, 1000, 'fuzz'))
    for w in list(work):
        if w[3] == 'exact' or r.random() < q(.12, .5) and w[3] != 'huge': work.append((asan, w[1], w[2], 'asan'))
    zero = ['--%s=%d' % (p, 1 if p == 'iterations' else 0) for p in ALLP]
    for n in lists[True]: work.append((asan, ['--advanced', 'benchmark', '--repeats-time=2', '--repeats-warm=1', 'primitive', n] + zero, 7, 'zero'))
    with ThreadPoolExecutor(core.NCPU) as ex:
        for f in [ex.submit(one, ctx, e, a, lists, s, k) for e, a, s, k in work]:
            try: f.result()
            except core.Infra as x: ctx.errors.append(str(x))
        fs = []
        for i in range(q(3, 40)):
            for k, n in enumerate(lists[True] if probed else []):
                # all sizes differ, so that none is taken for another
                vals = r.sample([0, 1, 2, 5, 15, 16, 17, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300], 8) if i else r.sample(range(1, 140), 8)
                ps = dict(zip(ALLP, vals)); ps['iterations'] = r.randrange(1, 6)
                fs.append(ex.submit(probe, ctx, probed, n, {p: ps[p] for p in family(n)}, r.choice([0, 1, 3, 20]), r.choice([0, 1, 2, 5, 33]), i * 1000 + k))
        for f in fs: f.result()
    ctx.count('probe_available', int(bool(probed)))
    ctx.distinct = len(ctx.seen)
    return ('command lines made from the documented tree (every benchmark by name, patterns cut from names, missing, invalid and huge values, unknown options, strange strings, random token lists), run on the application built from the tree with a clock that advances by a known step, '
            'exit status and output judged by a model of the documentation; and every benchmark run with primitives that record what they are asked and answer, judged by name, parameters and number of repeats, with the entries of accelerated routines counted; distinct by command line, clock step and build', ['which of two equal parameters wins and what an empty value means is not documented and not judged', 'arguments are valid UTF-8'])
