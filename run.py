#!/usr/bin/env python3
"""Runs one check: builds drivers from /repo's working tree, runs them under their monitors, judges the outcome.

  run.py <ID>             one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay <file>    runs the case of a violation again

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken. Exit 2: the check itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, threading, signal, re
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
H = os.path.join(VERIF, 'harness')
GXX, CLANG = 'g++', 'clang++'
STD = ['-std=c++20', '-I' + os.path.join(REPO, 'src'), '-I' + H]
ASMDEF = ['-DMILO_INTERNAL_ASM=true', '-DMILO_INTERNAL_ABI_UNIX=true']
NOASM = ['-DMILO_INTERNAL_ASM=false', '-DMILO_INTERNAL_ABI_UNIX=true']


class Infra(Exception):
    """The check itself could not be carried out."""


class Job:
    """A driver: how to build it, how to run it, what its failures mean."""

    def __init__(self, name, src, cxx=GXX, flags=('-O2',), defs=(), asm=True, env=None, wrap=(), link=(), timeout=600,
                 runs=None, compile_violation=False, args=(), ok_codes=(0,), asm_objs=None, slots=1, limit_as=None, optional=False):
        self.name, self.src, self.cxx, self.flags, self.defs = name, src, cxx, list(flags), list(defs)
        self.asm, self.env, self.wrap, self.link, self.timeout = asm, dict(env or {}), list(wrap), list(link), timeout
        # runs: several executions of one binary, each (suffix, extra env, args)
        self.runs = runs or [('', {}, list(args))]
        self.optional = optional   # exit 76, or no build: nothing can be judged that way
        self.compile_violation, self.ok_codes, self.asm_objs = compile_violation, ok_codes, asm_objs
        self.slots = slots

    def command(self, out, asm_objs):
        src = [self.src] if isinstance(self.src, str) else list(self.src)
        src = [s if os.path.isabs(s) else os.path.join(H, s) for s in src]
        c = [self.cxx] + STD + (ASMDEF if self.asm else NOASM) + self.flags + ['-D' + d for d in self.defs] + src
        if self.asm: c += (self.asm_objs if self.asm_objs is not None else asm_objs)
        return c + self.link + ['-o', out]


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tmp = tempfile.mkdtemp(prefix='milo-%s-' % pid, dir=os.environ.get('VERIF_TMP'))
        self.t0 = time.time()
        self.evals = 0; self.distinct = 0; self.counters = {}; self.samples = []
        self.violations = []   # (key, message, replay dict)
        self.errors = []
        self.lock = threading.Lock()
        self._asm = None

    def count(self, k, n=1):
        with self.lock: self.counters[k] = self.counters.get(k, 0) + n

    def violate(self, key, msg, **replay):
        with self.lock: self.violations.append((key, msg, replay))

    def asm_sources(self):
        r = []
        for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith('.asm') and f != 'abi.asm' and (f.endswith('x86_64.asm') or '/arch/x86_64' in d): r.append(p)
        return r

    def nasm(self, src, out, extra=()):
        inc = os.path.join(REPO, 'src/milo/internal/arch/x86_64')
        r = subprocess.run(['nasm', '-f', 'elf64', '-D', 'MILO_INTERNAL_ABI_UNIX=true', '-i', inc + '/', src, '-o', out] + list(extra), capture_output=True, text=True)
        if r.returncode: raise Infra('nasm %s: %s' % (src, r.stderr[-800:]))

    def asm(self):
        with self.lock:
            if self._asm is None:
                objs = []
                for i, s in enumerate(self.asm_sources()):
                    o = os.path.join(self.tmp, 'asm%d.o' % i); self.nasm(s, o); objs.append(o)
                self._asm = objs
            return self._asm


def preexec():
    os.setsid()


def run_proc(cmd, env=None, timeout=600, cwd=None, stdin=None):
    """(returncode or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=preexec)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


def first_errors(text, n=3):
    l = [x for x in text.splitlines() if 'error' in x.lower() or 'undefined reference' in x or 'multiple definition' in x]
    return ' | '.join(l[:n])[:700] or text[-500:]


def compile_job(ctx, job):
    out = os.path.join(ctx.tmp, re.sub(r'\W+', '_', job.name))
    cmd = job.command(out, ctx.asm() if job.asm else [])
    for attempt in (0, 1):
        rc, o, e = run_proc(cmd, timeout=800)
        if rc == 0: return out
        if rc is not None and rc > 0 and 'Killed' not in e and 'internal compiler error' not in e: break
    if job.optional and rc is not None and rc > 0: ctx.count('builds_not_judged'); return None
    if rc is not None and rc > 0 and job.compile_violation and 'internal compiler error' not in e:
        ctx.violate(job.name + ':compile', 'does not build (%s): %s' % (job.name, first_errors(e)), job=job.name, kind='compile', command=cmd)
        return None
    raise Infra('build of %s failed (rc=%s): %s' % (job.name, rc, first_errors(e)))


def read_cur(path):
    try:
        b = open(path, 'rb').read()
        return b[:128].split(b'\0')[0].decode('utf-8', 'replace'), b[128:].split(b'\0')[0].decode('utf-8', 'replace')
    except OSError: return '', ''


def san_summary(err):
    m = re.findall(r'(?:ERROR: \w+Sanitizer[^\n]*|WARNING: \w+Sanitizer[^\n]*|runtime error: [^\n]*|SUMMARY: [^\n]*)', err)
    return ' | '.join(m[:3])[:600]


def exec_once(ctx, job, exe, suffix, extra_env, args, group=None, case=None):
    name = job.name + suffix
    tag = re.sub(r'\W+', '_', name) + ('_r' if group else '')
    out, cur = os.path.join(ctx.tmp, tag + '.json'), os.path.join(ctx.tmp, tag + '.cur')
    for p in (out, cur):
        if os.path.exists(p): os.unlink(p)
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR')}
    env.update(VERIF_SEED=str(SEED), VERIF_TIER=TIER, VH_OUT=out, VH_CUR=cur,
               ASAN_OPTIONS='exitcode=77:abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0',
               UBSAN_OPTIONS='exitcode=77:halt_on_error=1:print_stacktrace=1', MSAN_OPTIONS='exitcode=77:halt_on_error=1',
               TSAN_OPTIONS='exitcode=77:halt_on_error=1:second_deadlock_stack=1', LSAN_OPTIONS='exitcode=77')
    env.update(job.env); env.update(extra_env)
    if group: env['VH_GROUP'] = group; env['VH_CASE'] = str(case)
    rc, o, e = run_proc(job.wrap + [exe] + list(args), env=env, timeout=job.timeout)
    data = None
    try: data = json.load(open(out))
    except (OSError, ValueError): pass
    return rc, o, e, data, read_cur(cur)


def judge(ctx, job, exe, suffix, extra_env, args):
    name = job.name + suffix
    def rep(group, case, msg): return dict(job=job.name, suffix=suffix, group=group, case=case, message=msg)
    rc, o, e, data, cur = exec_once(ctx, job, exe, suffix, extra_env, args)
    if rc is None or rc == -signal.SIGKILL:          # out of time or memory: try again, alone
        rc, o, e, data, cur = exec_once(ctx, job, exe, suffix, extra_env, args)
        if rc is None or rc == -signal.SIGKILL: raise Infra('%s gave no answer (rc=%s) in %s %s' % (name, rc, cur[0], cur[1][:200]))
    m = re.match(r'group=(\S+) case=(\d+)', cur[0]); g, c = (m.group(1), int(m.group(2))) if m else (None, None)
    where = ('%s %s' % cur).strip()
    if job.optional and rc == 76: ctx.count('runs_not_judged'); return
    if rc in job.ok_codes and data is not None and not data['nfail']:
        with ctx.lock:
            ctx.evals += data['evaluations']; ctx.distinct += data['distinct']
            for k, v in data['counters'].items():
                k = (k if not k.startswith('cases:') else k); ctx.counters[k] = ctx.counters.get(k, 0) + v
            ctx.samples += data['samples']
        if data['evaluations'] == 0: raise Infra('%s observed nothing' % name)
        return
    if data is not None and data['nfail']:
        for v in data['violations'][:5]:
            mm = re.search(r'\[case: group=(\S+) case=(\d+)', v)
            ctx.violate('%s:%s' % (name, re.sub(r'(got|want) \S+', '', v.split('[case')[0])[:120]), '%s: %s' % (name, v), **rep(mm.group(1) if mm else g, int(mm.group(2)) if mm else c, v))
        return
    if rc == 77 or (rc == 1 and 'Sanitizer' in e):
        s = san_summary(e); ctx.violate(name + ':' + s[:120], '%s: sanitizer report: %s [case: %s]' % (name, s, where), stderr=e[-4000:], **rep(g, c, s)); return
    if rc == 79:  # the driver aborted on purpose with a message
        ctx.violate(name + ':abort', '%s: %s [case: %s]' % (name, e[-300:], where), stderr=e[-4000:], **rep(g, c, e[-300:])); return
    if rc == 78:
        rc2, _, e2, data2, cur2 = exec_once(ctx, job, exe, suffix, extra_env, args)
        if rc2 == 78 and cur2[0] == cur[0]: ctx.violate(name + ':hang:' + (g or ''), '%s: no progress in one case for a minute of processor time [case: %s]' % (name, where), **rep(g, c, 'hang')); return
        raise Infra('%s hung once and then did not' % name)
    if rc < 0 and -rc in CRASH or rc in (128 + signal.SIGSEGV, 128 + signal.SIGABRT, 128 + signal.SIGILL, 128 + signal.SIGBUS):
        s = signal.Signals(-rc if rc < 0 else rc - 128).name
        ctx.violate('%s:%s:%s' % (name, s, g), '%s: died of %s %s [case: %s]' % (name, s, e.strip()[-300:].replace('\n', ' '), where), stderr=e[-4000:], **rep(g, c, s)); return
    raise Infra('%s ended with %s, no verdict: %s' % (name, rc, (e or o)[-600:]))


def run_jobs(ctx, jobs):
    """Builds and runs all jobs, NCPU at a time."""
    sem = threading.Semaphore(NCPU)
    def work(job):
        with sem: exe = compile_job(ctx, job)
        if exe is None: return
        try:
            def one(run):
                with sem: judge(ctx, job, exe, *run)
            if len(job.runs) == 1: one(job.runs[0])
            else:
                with ThreadPoolExecutor(max_workers=NCPU) as rx:
                    for f in [rx.submit(one, r) for r in job.runs]: f.result()
        finally:
            try: os.unlink(exe)
            except OSError: pass
    with ThreadPoolExecutor(max_workers=max(NCPU * 3, 4)) as ex:
        fs = [ex.submit(work, j) for j in jobs]
        for f in as_completed(fs):
            try: f.result()
            except Infra as x:
                with ctx.lock: ctx.errors.append(str(x))


def load_known():
    known = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m: known.append((m.group(1), m.group(2), m.group(3)))
    return known


def main():
    if len(sys.argv) > 2 and sys.argv[1] == 'replay': return replay(sys.argv[2])
    sys.path.insert(0, VERIF)
    from checks import REGISTRY
    pid = sys.argv[1]
    chk = REGISTRY[pid]
    ctx = Ctx(pid)
    try:
        try: rule, assumptions = chk(ctx)
        except Infra as x: ctx.errors.append(str(x)); rule, assumptions = '', []
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    return finish(ctx, rule, assumptions)


def finish(ctx, rule, assumptions):
    pid = ctx.pid
    known = [k for k in load_known() if k[0] == pid]
    seen_known, real = set(), []
    for key, msg, rep in ctx.violations:
        k = [x for x in known if re.search(x[1], key + ' ' + msg)]
        if k: seen_known.add(k[0])
        else: real.append((key, msg, rep))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    groups = {k[6:]: v for k, v in ctx.counters.items() if k.startswith('cases:')}
    fam = {}
    for k, v in groups.items():
        f = k.split('.')[0] + '.' + k.split('.')[1] if '.' in k else k
        fam[f] = fam.get(f, 0) + v
    cov = dict(evaluations=ctx.evals, distinct_nontrivial=ctx.distinct, rule=rule, samples=ctx.samples[:24] or ['(none)'],
               monitors={k: v for k, v in sorted(ctx.counters.items()) if not k.startswith('cases:')}, workload_groups=fam)
    doc = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='exploration', coverage=cov, assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(real))
    tmp = os.path.join(ev, '.%s.tmp' % pid)
    with open(tmp, 'w') as f: json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(ev, pid + '.json'))
    done = set(); n = 0
    for key, msg, rep in real:
        if key in done or n >= 10: continue
        done.add(key); n += 1
        path = os.path.join(ev, 'replay', '%s-%d.json' % (pid, n))
        with open(path, 'w') as f: json.dump({**rep, 'property': pid, 'seed': SEED, 'tier': TIER, 'key': key, 'message': msg}, f, indent=1)
        print('  ' + msg[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for x in ctx.errors[:6]: print('ERROR: %s' % x, file=sys.stderr)
    print('%s %s: %d evaluations, %d distinct, %d violations, %d errors, %.1f s' % (pid, TIER, ctx.evals, ctx.distinct, len(real), len(ctx.errors), time.time() - ctx.t0))
    sys.stdout.flush()
    if real: return 1
    if ctx.errors: return 2
    return 0


def replay(path):
    global SEED, TIER, THOROUGH
    d = json.load(open(path)); SEED, TIER = d['seed'], d['tier']; THOROUGH = TIER == 'thorough'
    sys.path.insert(0, VERIF)
    import checks
    ctx = Ctx(d['property']); hit = []
    def only(c, jobs):
        for j in jobs:
            if j.name != d.get('job'): continue
            exe = compile_job(c, j)
            if exe is None: continue
            for suffix, env, args in j.runs:
                if suffix != d.get('suffix', ''): continue
                e2 = dict(env)
                if d.get('group'): e2.update(VH_GROUP=d['group'], VH_CASE=str(d['case']))
                judge(c, j, exe, suffix, e2, args)
    g = globals(); checks.core.run_jobs = only; checks.core.SEED, checks.core.TIER, checks.core.THOROUGH = SEED, TIER, THOROUGH
    try: checks.REGISTRY[d['property']](ctx)
    finally: shutil.rmtree(ctx.tmp, ignore_errors=True)
    for k, m, r in ctx.violations: print(m)
    print('reproduced' if ctx.violations else 'not reproduced')
    return 1 if ctx.violations else 0


if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    sys.exit(main())
