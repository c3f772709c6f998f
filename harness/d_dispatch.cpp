// C12: backend dispatch under every processor model. cpuid and xgetbv of the assembly sources trap into on_ill below;
// every assembly routine is entered through a counting thunk; its needs come from its disassembly (routines.inc).
#include "cpu.h"

template<class H, ref::alg A> void hash_use(const bytes& m, std::string& bad)
{
    u8 d[64]; auto n = mp::hash::digest<H>(m.data(), m.size(), d); auto w = ref::hash(A, m.data(), m.size()); if (n != w.size() || memcmp(d, w.data(), n)) bad += std::string(" hash ") + ref::aname(A);
    n = mp::mac::digest<prim::hmac<H>>(m.data(), 20, m.data(), m.size(), d); w = ref::hmac(A, m.data(), 20, m.data(), m.size()); if (n != w.size() || memcmp(d, w.data(), n)) bad += std::string(" hmac ") + ref::aname(A);
}
static std::string bad; static bytes msg; // built before the fork
static u64 sum(size_t from[], const char* part) { u64 s = 0; for (size_t i = 0; i < nroutines; i++) if (strstr(routines[i].name, part)) s += vh_counters[i] - from[i]; return s; }

static void child(int)
{
    struct sigaction sa{}; sa.sa_sigaction = on_ill; sa.sa_flags = SA_SIGINFO; sigaction(SIGILL, &sa, nullptr);
    const u64 have = usable(); size_t before[64]{}; auto mark = [&] { for (size_t i = 0; i < nroutines; i++) before[i] = vh_counters[i]; }; (void)sum;
    std::string err; (void)bad;
    auto group = [&](const char* what, const char* part, auto use)
    {
        mark(); std::string b; use(b); if (!b.empty()) err += "wrong result:" + b + "; ";
        bool eligible = false, used = false; for (size_t i = 0; i < nroutines; i++)
        {
            u64 k = vh_counters[i] - before[i]; SH->cnt[i] += k;
            if (k && (routines[i].req & ~have)) { err += std::string(what) + " entered " + routines[i].name + " without its instructions (needs " + std::to_string(routines[i].req) + ", usable " + std::to_string(have) + "); "; }
            if (part && strstr(routines[i].name, part)) { if (!(routines[i].req & ~have)) eligible = true; if (k) used = true; }
        }
        if (part && M.real && eligible && !used) err += std::string(what) + " does not use its accelerated code; ";
        SH->sig = mix(SH->sig ^ (used * 2 + eligible));
    };
    group("sha1", "sha_1", [&](std::string& b) { hash_use<mp::hash::sha_1_160<>, ref::SHA1>(msg, b); });
    group("sha256", "sha_2_256", [&](std::string& b) { hash_use<mp::hash::sha_2_256<>, ref::SHA256>(msg, b); });
    group("sha224", "sha_2_256", [&](std::string& b) { hash_use<mp::hash::sha_2_224<>, ref::SHA224>(msg, b); });
    group("sha512", nullptr, [&](std::string& b) { hash_use<mp::hash::sha_2_512<>, ref::SHA512>(msg, b); hash_use<mp::hash::sha_2_384<>, ref::SHA384>(msg, b); hash_use<mp::hash::sha_2_512_256<>, ref::SHA512_256>(msg, b); hash_use<mp::hash::sha_2_512_224<>, ref::SHA512_224>(msg, b); });
    group("kdf", nullptr, [&](std::string& b)
    {
        u8 o[90]; mp::kdf::derive<prim::hkdf<mp::hash::sha_2_256<>>>(msg.data(), 30, msg.data(), 9, msg.data(), 11, o, 90); if (ref::hkdf(ref::SHA256, msg.data(), 30, msg.data(), 9, msg.data(), 11, 90) != bytes(o, o + 90)) b += " hkdf";
        mp::kdf::derive<prim::pbkdf<mp::hash::sha_1_160<>>>(msg.data(), 30, msg.data(), 9, 2, o, 90); if (ref::pbkdf2(ref::SHA1, msg.data(), 30, msg.data(), 9, 2, 90) != bytes(o, o + 90)) b += " pbkdf2";
    });
    group("chacha20", "chacha", [&](std::string& b)
    {
        for (size_t n : {1, 64, 255, 256, 511, 512, 1500}) for (size_t s : {size_t(0), n / 2, n}) { bytes o(n), w(n); ref::chacha_xor(&msg[50], 7, &msg[100], msg.data(), n, w.data()); bytes iv(16); iv[0] = 7; memcpy(&iv[4], &msg[100], 12); bytes k(&msg[50], &msg[82]); mp::cipher::apie<mp::cipher::chacha_20<>> h(k, iv); h.encrypt(msg.data(), s, o.data()); h.encrypt(msg.data() + s, n - s, o.data() + s); if (o != w) { b += " chacha20"; break; } }
    });
    group("aead", "chacha", [&](std::string& b)
    {
        using C = mp::aead::chacha_20_poly_1305<>; bytes o(1200); u8 d[16]; mp::aead::encrypt<C>(&msg[0], 32, &msg[32], 12, &msg[44], 20, &msg[64], 1200, o.data(), d); auto w = ref::aead_seal(&msg[0], &msg[32], &msg[44], 20, &msg[64], 1200); if (w.ct != o || memcmp(d, w.tag.data(), 16)) b += " aead";
    });
    // every routine of the best cipher backend, where all instructions are there
    if (M.real && !strcmp(M.name, "everything")) for (size_t i = 0; i < nroutines; i++) if (strstr(routines[i].name, "avx_2") && !SH->cnt[i]) err += std::string("on a processor with everything ") + routines[i].name + " is never used; ";
    if (!err.empty()) { snprintf(SH->msg, sizeof SH->msg, "%s", err.c_str()); _exit(91); }
    _exit(90);
}
static void judge(const model& m)
{
    M = m; memset(SH, 0, sizeof *SH); SH->sig = 1;
    current("model %s features=%#llx osxsave=%d xcr0=%u max_leaf=%u", m.name, (unsigned long long)m.f, m.osxsave, m.xcr0, m.max_leaf);
    fflush(nullptr); pid_t p = fork(); if (p < 0) { fprintf(stderr, "fork\n"); exit(2); }
    if (p == 0) { itimerval it{}; setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(60); child(0); }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 90) { if (!SH->cpuid) fail("no processor features were ever asked for"); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 91) fail(strf("model %s: %s", m.name, SH->msg));
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "killed\n"); exit(2); }
    else fail(strf("model %s: process ended with status %#x", m.name, st));
    u64 s = 3; for (size_t i = 0; i < nroutines; i++) { s = mix(s ^ (SH->cnt[i] != 0)); if (SH->cnt[i]) count(std::string("entered.") + routines[i].name, SH->cnt[i]); }
    eval(sigs({m.f, m.osxsave, m.xcr0, m.max_leaf, s})); count("cpuid_executed", SH->cpuid); count("xgetbv_executed", SH->xgetbv);
}
int main()
{
    init(); if (nroutines < 3) { fprintf(stderr, "no routines\n"); return 2; }
    SH = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    { rng r(9); msg = r.vec(5000); r.fill(msg.data(), msg.size()); }
    const u64 S4 = SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT, SNB = S4 | AES | PCLMUL | AVX, HSW = SNB | AVX2 | BMI1 | BMI2 | FMA | MOVBE, ZEN = HSW | SHA | ADX, ALL = ZEN | AVX512;
    const model real[] = {
        {"everything", ALL, true, 0xe7, 7, 0, true}, {"zen", ZEN, true, 7, 0xd, 0, true}, {"ice lake", ALL, true, 0xe7, 0x1b, 0, true}, {"haswell", HSW, true, 7, 0xd, 0, true}, {"sandy bridge", SNB, true, 7, 0xd, 0, true},
        {"westmere", S4 | AES | PCLMUL, false, 0, 0xb, 0, true}, {"nehalem", S4, false, 0, 0xb, 0, true}, {"penryn", SSE3 | SSSE3 | SSE41, false, 0, 0xa, 0, true}, {"merom", SSE3 | SSSE3, false, 0, 0xa, 0, true}, {"prescott", SSE3, false, 0, 5, 0, true},
        {"k8", 0, false, 0, 1, 0, true}, {"k10", SSE3 | POPCNT, false, 0, 5, 0, true}, {"bobcat", SSE3 | SSSE3 | POPCNT, false, 0, 6, 0, true}, {"goldmont", S4 | AES | PCLMUL | SHA | MOVBE, true, 3, 0x15, 0, true}, {"bulldozer", SNB, true, 7, 0xd, 0, true}, {"jaguar", SNB | MOVBE | BMI1, true, 7, 0xd, 0, true},
        {"zen, system without avx", ZEN, true, 3, 0xd, 0, true}, {"zen, system without xsave", ZEN, false, 0, 0xd, 0, true}, {"zen, leaves limited", ZEN, true, 7, 3, 0, true}, {"haswell, system without xsave", HSW, false, 0, 0xd, 0, true}, {"ice lake, only sse state", ALL, true, 3, 0x1b, 0, true},
        {"tremont", S4 | AES | PCLMUL | SHA | MOVBE, true, 3, 0x1b, 0, true}, {"pentium haswell without avx", S4 | PCLMUL | MOVBE, true, 3, 0xd, 0, true}, {"lakefield", S4 | AES | PCLMUL | SHA | MOVBE, true, 3, 0x1b, 0, true}};
    cases("C12.real", sizeof real / sizeof *real, [&](rng&, u64 i) { judge(real[i]); sample(strf("model %s: %llu cpuid, entered %s", real[i].name, (unsigned long long)SH->cpuid, [&] { std::string s; for (size_t k = 0; k < nroutines; k++) if (SH->cnt[k]) s += std::string(routines[k].name).substr(0, 120) + " "; return s; }().c_str())); });
    // each of them with noise in every register bit that says nothing about these features
    cases("C12.noise", tier(120, 2000), [&](rng& r, u64) { auto m = real[r.below(sizeof real / sizeof *real)]; m.noise = r.next() | 1; judge(m); });
    // every combination of the features the routines need, however odd, with every system state
    static const u64 F[] = {SSE3, SSSE3, SSE41, SSE42, AVX, AVX2, SHA};
    cases("C12.subsets", 128, [&](rng& r, u64 s)
    {
        for (unsigned os = 0; os < 6; os++) for (unsigned ml : {1u, 7u, 0xdu})
        {
            model m; m.name = "subset"; for (unsigned i = 0; i < 7; i++) if (s >> i & 1) m.f |= F[i];
            static const unsigned xs[] = {7, 7, 3, 5, 1, 0xe7}; m.osxsave = os != 0; m.xcr0 = xs[os]; m.max_leaf = ml; m.noise = r.chance(3) ? r.next() : 0; if (r.chance(4)) m.f |= ALL & ~(SSE3 | SSSE3 | SSE41 | SSE42 | AVX | AVX2 | SHA); judge(m);
        }
    });
    return finish();
}
