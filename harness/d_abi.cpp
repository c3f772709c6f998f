// C21: every assembly routine is called through a thunk that fills callee-saved registers and the stack with known
// values and hands what it finds afterwards to vh_check. With stepping on, a trap after each instruction writes a
// signal frame below the red zone, so that data kept there would be lost, and records every instruction executed.
#include "prim.h"
#include <ucontext.h>
using namespace vh;
struct routine { const char* name; const u8* begin; u64 size; };
extern "C" {
    extern u64 vh_sent[64];     // 0-5 rbx rbp r12-r15, 6 rdi 7 rsi, 16-35 xmm6-15, 40-63 stack pattern
    extern u64 vh_out[64];      // as found afterwards; 8 rsp found, 9 rsp expected, 10 flags, 11 mxcsr before|after, 12 x87 tag
    extern u64 vh_upper[64];    // upper halves of ymm0-15
    extern u64 vh_stack[32];    // stack pattern as found
    extern u64 vh_step, vh_win;
    void vh_check(u64 i);
}
#include "routines.inc" // routines[], nroutines
static u64 calls[64], stepped_calls[64]; static std::vector<u8> seen[64]; static u64 steps, low_sp; static std::string last;

extern "C" void vh_check(u64 i)
{
    calls[i] += 1; if (vh_step) stepped_calls[i] += 1; const char* n = routines[i].name; std::string e;
    static const char* rn[] = {"rbx", "rbp", "r12", "r13", "r14", "r15", "rdi", "rsi"};
    for (unsigned k = 0; k < (vh_win ? 8u : 6u); k++) if (vh_out[k] != vh_sent[k]) e += std::string(rn[k]) + " not preserved; ";
    if (vh_win) for (unsigned k = 16; k < 36; k++) if (vh_out[k] != vh_sent[k]) { e += strf("xmm%u not preserved; ", 6 + (k - 16) / 2); k |= 1; }
    if (vh_out[8] != vh_out[9]) e += strf("stack pointer off by %lld; ", (long long)(vh_out[8] - vh_out[9]));
    if (vh_out[10] & 0x400) e += "direction flag left set; ";
    if ((uint32_t(vh_out[11]) & 0xffc0) != (uint32_t(vh_out[11] >> 32) & 0xffc0)) e += "mxcsr control bits changed; ";
    if ((vh_out[12] & 0xffff) != 0xffff) e += "x87 or mmx state left in use; ";
    for (unsigned k = 0; k < 24; k++) if (vh_stack[k] != vh_sent[40 + k]) { e += strf("stack of the caller changed at +%u; ", k * 8); break; }
    for (unsigned k = 0; k < 32; k++) if (vh_upper[k]) { e += strf("upper half of ymm%u left in use; ", k / 2); break; }
    if (!e.empty()) fail(std::string(vh_win ? "windows convention: " : "") + n + ": " + e);
    // new values for the next call
    static rng r(77); for (unsigned k = 0; k < 64; k++) vh_sent[k] = r.next();
}
static void on_trap(int, siginfo_t*, void* c)
{
    auto& g = static_cast<ucontext_t*>(c)->uc_mcontext.gregs; auto ip = reinterpret_cast<const u8*>(g[REG_RIP]); steps += 1; S.beat = S.beat + 1;
    for (size_t i = 0; i < nroutines; i++) if (ip >= routines[i].begin && ip < routines[i].begin + routines[i].size) { seen[i][size_t(ip - routines[i].begin)] = 1; break; }
}
static void stepping(bool on) { vh_step = on; }

template<class H, ref::alg A> void hashes(const char* n)
{
    const size_t B = ref::blen(A);
    cases((std::string("C21.hash.") + n).c_str(), tier(80, 400), [&](rng& r, u64 blocks)
    {
        for (size_t al = 0; al < 64; al += blocks < 12 ? 1 : 5)
        {
            size_t len = blocks * B + (r.chance(2) ? r.below(B) : 0); bytes buf(len + 64 + 16); auto base = buf.data() + (64 - reinterpret_cast<uintptr_t>(buf.data()) % 64) % 64 + 0; size_t off = std::min<size_t>(al, buf.size() - size_t(base - buf.data()) - len); u8* p = base + off; r.data(p, len);
            current("%s blocks=%zu align=%zu", n, size_t(blocks), al); u8 d[64]; auto c = mp::hash::digest<H>(p, len, d); auto w = ref::hash(A, p, len); check_eq(d, c, w.data(), w.size(), "digest"); eval(sigs({blocks, al, 1}));
        }
    });
    cases((std::string("C21.step.hash.") + n).c_str(), tier(24, 80), [&](rng& r, u64 blocks)
    {
        auto m = r.vec(blocks * B + r.below(B)); current("%s stepped blocks=%zu", n, size_t(blocks)); stepping(true); u8 d[64]; auto c = mp::hash::digest<H>(m.data(), m.size(), d); stepping(false);
        auto w = ref::hash(A, m.data(), m.size()); check_eq(d, c, w.data(), w.size(), "digest, interrupted after each instruction"); eval(sigs({blocks, m.size(), 2}));
    });
}
template<class C> void ciphers(const char* n)
{
    auto one = [&](rng& r, size_t len, size_t al, size_t cut, bool st)
    {
        bytes k = r.vec(32), iv = r.vec(16), m(len + 128), o(len + 128, 0); uint32_t c; memcpy(&c, iv.data(), 4); r.data(m.data(), m.size()); bytes w(len); u8* in = m.data() + al, *out = o.data() + r.below(64); ref::chacha_xor(k.data(), c, iv.data() + 4, in, len, w.data());
        current("%s len=%zu align=%zu cut=%zu stepped=%d", n, len, al, cut, st); mp::cipher::apie<C> h(k, iv); if (st) stepping(true); h.encrypt(in, cut, out); h.encrypt(in + cut, len - cut, out + cut); stepping(false); check_eq(out, len, w.data(), len, st ? "text, interrupted after each instruction" : "text"); eval(sigs({len, al, cut, st}));
    };
    cases((std::string("C21.cipher.") + n).c_str(), tier(2200, 6000), [&](rng& r, u64 len) { one(r, len, r.below(64), r.below(len + 1), false); one(r, len, len % 64, 0, false); });
    cases((std::string("C21.align.") + n).c_str(), 64, [&](rng& r, u64 al) { for (size_t len : {64, 256, 257, 512, 513, 1024, 1100, 2048}) one(r, len, al, 0, false); });
    cases((std::string("C21.step.cipher.") + n).c_str(), tier(48, 300), [&](rng& r, u64 i) { size_t len = i < 36 ? i * 32 + r.below(32) : r.below(2300); one(r, len, r.below(64), i & 1 ? 0 : r.below(len + 1), true); });
}
int main()
{
    init(); if (nroutines < 3) return 2; for (size_t i = 0; i < nroutines; i++) seen[i].resize(routines[i].size);
    { rng r(77); for (auto& s : vh_sent) s = r.next(); }
    struct sigaction sa{}; sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
    hashes<mp::hash_sha_1_160_hw_x86_64_ni, ref::SHA1>("sha1"); hashes<mp::hash_sha_2_256_hw_x86_64_ni, ref::SHA256>("sha256"); hashes<mp::hash_sha_2_224_hw_x86_64_ni, ref::SHA224>("sha224");
    ciphers<mp::cipher_chacha_20_hw_x86_64_ssse_3>("ssse3"); ciphers<mp::cipher_chacha_20_hw_x86_64_avx_2>("avx2");
    // feature detection, both ways
    cases("C21.detect", 4, [&](rng& r, u64 i) { stepping(i & 1); auto inf = milo::internal::arch_x86_64_info_basic(); stepping(false); if (!inf.sse_2()) fail("feature detection found nothing"); eval(i); (void)r; });
    // the stack of this program is not executable
    cases("C21.stack", 1, [&](rng&, u64)
    {
        FILE* f = fopen("/proc/self/maps", "r"); char l[512]; bool found = false;
        while (f && fgets(l, sizeof l, f))
        {
            char perm[8] = ""; sscanf(l, "%*s %7s", perm); if (strstr(l, "[stack]")) { found = true; if (perm[2] == 'x') fail("the stack is executable"); } if (perm[1] == 'w' && perm[2] == 'x') fail(std::string("memory both writable and executable: ") + l);
        }
        if (f) fclose(f); if (!found) { fprintf(stderr, "no stack in maps\n"); exit(2); } eval(1);
    });
    if (!S.group && !S.prefix) for (size_t i = 0; i < nroutines; i++) if (!calls[i]) { count(std::string("never_called.") + routines[i].name); }
    for (size_t i = 0; i < nroutines; i++) { count(std::string("calls.") + routines[i].name, calls[i]); u64 d = 0; for (auto x : seen[i]) d += x; count(std::string("instructions_seen.") + routines[i].name, d); }
    count("instructions_stepped", steps); sample(strf("%llu instructions stepped", (unsigned long long)steps));
    return finish();
}
