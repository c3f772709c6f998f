# Checks about the assembly routines: which are used, and how they behave at their borders.
from . import core, check, q, with_selftest, ALGS, PYALG, HAS_NI
import os, re, subprocess
Job = core.Job
FEAT = dict(SSE3=1, SSSE3=2, SSE41=4, SSE42=8, AVX=16, AVX2=32, SHA=64, BMI1=128, BMI2=256, AES=512, PCLMUL=1024, FMA=2048, POPCNT=4096, MOVBE=8192, AVX512=16384, ADX=32768)
SSSE3 = set('pshufb palignr pabsb pabsw pabsd phaddw phaddd phaddsw phsubw phsubd phsubsw pmaddubsw pmulhrsw psignb psignw psignd'.split())
SSE3 = set('addsubpd addsubps haddpd haddps hsubpd hsubps lddqu movddup movshdup movsldup'.split())
SSE41 = set('blendpd blendps blendvpd blendvps dppd dpps extractps insertps movntdqa mpsadbw packusdw pblendvb pblendw pcmpeqq pextrb pextrd pextrq phminposuw pinsrb pinsrd pinsrq pmaxsb pmaxsd pmaxud pmaxuw pminsb pminsd pminud pminuw pmuldq pmulld ptest roundpd roundps roundsd roundss'.split())
SSE42 = set('pcmpgtq pcmpestri pcmpestrm pcmpistri pcmpistrm crc32'.split())


def needs(mn, ops):
    """Instruction set extensions one instruction needs, beyond the x86-64 baseline."""
    F = FEAT
    if 'zmm' in ops or re.search(r'\bk[0-7]\b', ops) or mn.startswith('vprold') or mn.startswith('vprord') or mn.startswith('vpternlog'): return F['AVX512']
    if mn.startswith('sha1') or mn.startswith('sha256'): return F['SHA']
    if mn in SSSE3: return F['SSSE3']
    if mn in SSE3: return F['SSE3']
    if mn in SSE41 or mn.startswith('pmovzx') or mn.startswith('pmovsx'): return F['SSE41']
    if mn in SSE42: return F['SSE42']
    if re.match(r'v?aes', mn): return F['AES'] | (F['AVX'] if mn[0] == 'v' else 0)
    if re.match(r'v?pclmul', mn): return F['PCLMUL'] | (F['AVX'] if mn[0] == 'v' else 0)
    if re.match(r'vf(n?m)(add|sub)', mn): return F['FMA']
    if mn in ('andn', 'bextr', 'blsi', 'blsmsk', 'blsr', 'tzcnt'): return F['BMI1']
    if mn in ('bzhi', 'mulx', 'pdep', 'pext', 'rorx', 'sarx', 'shlx', 'shrx'): return F['BMI2']
    if mn in ('adcx', 'adox'): return F['ADX']
    if mn == 'popcnt': return F['POPCNT']
    if mn == 'movbe': return F['MOVBE']
    if mn[0] == 'v' and not mn.startswith('ver'):
        if re.match(r'v(pbroadcast|broadcasti|perm2i|extracti|inserti|perm[dqp]|psllv|psrlv|psrav|pblendd|pmaskmov|p?gather|mpsadbw)', mn): return F['AVX2'] | F['AVX']
        if 'ymm' in ops and mn.startswith('vp') and not mn.startswith(('vperm2f', 'vpermil', 'vptest')): return F['AVX2'] | F['AVX']
        return F['AVX']
    return 0


def routines(objs):
    """Every global routine of the assembly objects with the extensions its instructions (and those of what it calls) need."""
    out = []
    for o in objs:
        nm = subprocess.run(['nm', o], capture_output=True, text=True).stdout.splitlines()
        syms = sorted((int(l.split()[0], 16), l.split()[2]) for l in nm if len(l.split()) == 3 and l.split()[1] == 'T')
        dis = subprocess.run(['objdump', '-d', '-M', 'intel', '--no-show-raw-insn', o], capture_output=True, text=True).stdout
        ins = []
        for l in dis.splitlines():
            m = re.match(r'\s+([0-9a-f]+):\s+(?:(?:lock|rep|repz|repnz|bnd|notrack)\s+)*(\S+)\s*(.*)', l)
            if m: ins.append((int(m.group(1), 16), m.group(2), m.group(3)))
        end = (ins[-1][0] + 16) if ins else 0
        rng = {s: (a, (syms[i + 1][0] if i + 1 < len(syms) else end)) for i, (a, s) in enumerate(syms)}
        direct, calls = {}, {}
        for s, (a, b) in rng.items():
            r = 0; c = set()
            for ad, mn, ops in ins:
                if a <= ad < b:
                    r |= needs(mn, ops)
                    m = re.match(r'([0-9a-f]+)\b', ops) if mn[0] == 'j' or mn == 'call' else None
                    if m:
                        t = int(m.group(1), 16)
                        if not a <= t < b:
                            for s2, (x, y) in rng.items():
                                if x <= t < y: c.add(s2)
            direct[s], calls[s] = r, c
        for s in rng:
            seen, todo, r = {s}, [s], 0
            while todo:
                x = todo.pop(); r |= direct[x]
                for y in calls[x] - seen: seen.add(y); todo.append(y)
            out.append((s, r, o, rng[s][1] - rng[s][0]))
    return out


def thunked(ctx, real='vhreal_', pre=True, thunk=None):
    """Assembly objects whose routines are entered through thunks of our own. Returns (objects, routine list)."""
    d = os.path.join(ctx.tmp, 'thunk'); os.makedirs(d, exist_ok=True)
    inc = os.path.join(d, 'pre.inc')
    with open(inc, 'w') as f: f.write('%imacro cpuid 0\n db 0x0f,0x0b,0x56,0x01\n%endmacro\n%imacro xgetbv 0\n db 0x0f,0x0b,0x56,0x02\n%endmacro\n')
    objs, rs, names = [], [], []
    for i, s in enumerate(ctx.asm_sources()):
        o = os.path.join(d, 'a%d.o' % i); ctx.nasm(s, o, ['-P', inc] if pre else [])
        r = routines([o])
        # feature detection itself is not an accelerated routine
        text = open(s, errors='replace').read().lower()
        work = [x for x in r if not (re.search(r'^\s*(cpuid|xgetbv)\b', text, re.M))]
        for x in work:
            subprocess.run(['objcopy', '--redefine-sym', '%s=%s%s' % (x[0], real, x[0]), o], check=True)
        rs += work; objs.append(o)
    if len(rs) < 3: raise core.Infra('no assembly routines found')
    return objs, rs, d


def counting(ctx, pre):
    """The same with thunks that count entries."""
    objs, rs, d = thunked(ctx, pre=pre)
    t = os.path.join(d, 'thunks.asm')
    with open(t, 'w') as f:
        f.write('default rel\nbits 64\nsection .data\nglobal vh_counters\nvh_counters: times %d dq 0\nsection .text\n' % max(64, len(rs)))
        for i, x in enumerate(rs): f.write('global %s\nextern vhreal_%s\n%s:\n lock inc qword [rel vh_counters + %d]\n jmp vhreal_%s\n' % (x[0], x[0], x[0], 8 * i, x[0]))
        f.write('section .note.GNU-stack noalloc noexec nowrite progbits\n')
    to = os.path.join(d, 'thunks.o'); ctx.nasm(t, to)
    return objs + [to], rs, d


@check('C12')
def c12(ctx):
    objs, rs, d = counting(ctx, True)
    with open(os.path.join(d, 'routines.inc'), 'w') as f:
        f.write('static const routine routines[] = {%s};\nstatic const size_t nroutines = %d;\n' % (', '.join('{"%s", %d}' % (x[0], x[1]) for x in rs), len(rs)))
    for x in rs: ctx.count('needs.%s' % x[0], x[1])
    with_selftest(ctx, [Job('dispatch', 'd_dispatch.cpp', flags=['-O1', '-I' + d], asm_objs=objs, runs=[('.' + g, {'VH_PREFIX': 'C12.' + g}, []) for g in ('real', 'noise', 'subsets')])])
    return ('processor models: 24 real ones, real ones with noise in unrelated bits, and every subset of seven extensions with six system states and three leaf limits; each in a process of its own that uses every default primitive, '
            'with cpuid and xgetbv emulated, entries of each assembly routine counted and compared with the extensions its disassembly needs; distinct by model and set of routines entered',
            ['SSE2 is always present, as on every x86-64 processor', 'only real models judge that acceleration is used'])


@check('C30')
def c30(ctx):
    objs, rs, d = counting(ctx, True)
    with open(os.path.join(d, 'routines.inc'), 'w') as f:
        f.write('static const routine routines[] = {%s};\nstatic const size_t nroutines = %d;\n' % (', '.join('{"%s", %d}' % (x[0], x[1]) for x in rs), len(rs)))
    names = ('sha1', 'sha256', 'sha512', 'poly_chacha', 'truncated')
    with_selftest(ctx, [Job('option.%s.%s' % (n, c), 'd_option.cpp', cxx=x, flags=['-O1', '-I' + d], defs=['PART=%d' % i], env={'VH_PREFIX': 'C30.'}, asm_objs=objs, compile_violation=True)
                        for i, n in enumerate(names) for c, x in (('gcc', core.GXX), ('clang', core.CLANG)) if core.THOROUGH or (c == 'gcc') == (i % 2 == 0)])
    return ('implementations of our own, counting and marking the blocks they process, given to every hash, Poly1305 and ChaCha20 by each option and combination and order of options, with each of twenty kinds of processor requirement, on modelled processors with every feature present or absent; '
            'which implementation did each block, at run time and at compile time, and every result are judged; distinct by model', ['what an option given twice means is not judged', 'options of the codecs, KDFs and AEAD, which take none, are not judged'])


def abi_thunks(ctx, win):
    d = os.path.join(ctx.tmp, 'abi%d' % win); os.makedirs(d, exist_ok=True)
    objs, rs = [], []
    inc = os.path.join(core.REPO, 'src/milo/internal/arch/x86_64')
    for i, s in enumerate(ctx.asm_sources()):
        o = os.path.join(d, 'a%d.o' % i)
        r = subprocess.run(['nasm', '-f', 'elf64', '-D', 'MILO_INTERNAL_ABI_%s=true' % ('WIND' if win else 'UNIX'), '-i', inc + '/', s, '-o', o], capture_output=True, text=True)
        if r.returncode: raise core.Infra('nasm: ' + r.stderr[-400:])
        for x in routines([o]):
            subprocess.run(['objcopy', '--redefine-sym', '%s=vhreal_%s' % (x[0], x[0]), o], check=True); rs.append(x)
        objs.append(o)
    if len(rs) < 3: raise core.Infra('no assembly routines found')
    t = os.path.join(d, 'thunks.asm')
    save = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
    with open(t, 'w') as f:
        f.write('default rel\nbits 64\nsection .data align=64\nglobal vh_sent, vh_out, vh_upper, vh_stack, vh_step, vh_win\n'
                'vh_sent: times 64 dq 0\nvh_out: times 64 dq 0\nvh_upper: times 64 dq 0\nvh_stack: times 32 dq 0\nvh_step: dq 0\nvh_win: dq %d\nvh_ret: dq 0, 0\nvh_env: times 32 db 0\n'
                'section .text\nextern vh_check\n' % win)
        for i, x in enumerate(rs):
            w = f.write
            w('global %s\nextern vhreal_%s\n%s:\n' % (x[0], x[0], x[0]))
            for r in save: w(' push %s\n' % r)
            # 64 bytes of arguments and shadow space, 192 bytes of pattern
            w(' sub rsp, 264\n mov [vh_out + 72], rsp\n stmxcsr [vh_out + 88]\n')
            for k in range(24): w(' mov rax, [vh_sent + %d]\n mov [rsp + %d], rax\n' % ((40 + k) * 8, 64 + k * 8))
            w(' vzeroupper\n')
            if win:
                w(' mov [rsp + 32], r8\n mov [rsp + 40], r9\n mov r9, rcx\n mov r8, rdx\n mov rdx, rsi\n mov rcx, rdi\n')
                for k in range(10): w(' movups xmm%d, [vh_sent + %d]\n' % (6 + k, (16 + 2 * k) * 8))
                w(' mov rdi, [vh_sent + 48]\n mov rsi, [vh_sent + 56]\n')
            for k, r in enumerate(save): w(' mov %s, [vh_sent + %d]\n' % (r, k * 8))
            w(' cmp qword [vh_step], 0\n je .go\n pushfq\n or qword [rsp], 0x100\n popfq\n.go:\n')
            if not win: w(' ; arguments on the stack are not used by this convention here\n')
            w(' call vhreal_%s\n' % x[0])
            w(' mov [vh_out + 64], rsp\n mov rsp, [vh_out + 72]\n')
            for k, r in enumerate(save): w(' mov [vh_out + %d], %s\n' % (k * 8, r))
            w(' mov [vh_out + 48], rdi\n mov [vh_out + 56], rsi\n mov [vh_ret], rax\n mov [vh_ret + 8], rdx\n')
            w(' pushfq\n pop rax\n mov [vh_out + 80], rax\n push rax\n and qword [rsp], ~0x500\n popfq\n')
            for k in range(16): w(' vextractf128 [vh_upper + %d], ymm%d, 1\n' % (k * 16, k))
            for k in range(10): w(' movups [vh_out + %d], xmm%d\n' % ((16 + 2 * k) * 8, 6 + k))
            w(' vzeroupper\n stmxcsr [vh_out + 92]\n fnstenv [vh_env]\n fldenv [vh_env]\n movzx eax, word [vh_env + 8]\n mov [vh_out + 96], rax\n')
            for k in range(24): w(' mov rax, [rsp + %d]\n mov [vh_stack + %d], rax\n' % (64 + k * 8, k * 8))
            w(' mov edi, %d\n call vh_check\n mov rax, [vh_ret]\n mov rdx, [vh_ret + 8]\n add rsp, 264\n' % i)
            for r in reversed(save): w(' pop %s\n' % r)
            w(' ret\n')
        f.write('section .note.GNU-stack noalloc noexec nowrite progbits\n')
    to = os.path.join(d, 'thunks.o'); ctx.nasm(t, to)
    with open(os.path.join(d, 'routines.inc'), 'w') as f:
        f.write('extern "C" {%s}\n' % ' '.join('void vhreal_%s();' % x[0] for x in rs))
        f.write('static const routine routines[] = {%s};\nstatic const size_t nroutines = %d;\n' % (', '.join('{"%s", reinterpret_cast<const u8*>(&vhreal_%s), %d}' % (x[0], x[0], x[3]) for x in rs), len(rs)))
    return objs + [to], d


@check('C21')
def c21(ctx):
    jobs = []
    for win in (0, 1):
        objs, d = abi_thunks(ctx, win)
        jobs.append(Job('abi.' + ('windows' if win else 'unix'), 'd_abi.cpp', flags=['-O1', '-I' + d], asm_objs=objs))
    # programs of several link modes: none gets an executable stack or needs its code relocated at load time
    plain = ctx.asm()
    for name, fl in (('pie', ['-fPIE', '-pie', '-Wl,-z,text']), ('nopie', ['-fno-pie', '-no-pie']), ('shared', ['-fPIC', '-pie', '-Wl,-z,text', '-Wl,-z,now'])):
        jobs.append(Job('link.' + name, 'd_stack.cpp', flags=['-O2'] + fl, compile_violation=(name != 'nopie')))
    with_selftest(ctx, jobs)
    return ('calls of every assembly routine (all block counts to 80 blocks, all alignments) in the unix and in the windows convention through a thunk that compares callee-saved registers, stack, flags and vector state before and after; '
            'a part of them interrupted after every instruction; distinct by length, alignment and mode', ['routines take no arguments on the stack in the unix convention'])
