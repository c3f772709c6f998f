// C24: the instructions executed and the addresses touched, for two secrets of equal size.
// TAINT=0: every instruction is single-stepped; the trace of (instruction, effective addresses) of one secret must equal that of the other.
// TAINT=1: runs under memcheck with the secrets undefined; a branch or address that depends on them is reported, whatever their values.
#include "prim.h"
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <cxxabi.h>
#ifndef TAINT
#define TAINT 0
#endif
#if TAINT
#include <valgrind/memcheck.h>
#endif
#ifndef PART
#define PART 0
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef BT
#define BT unsigned char
#endif
using namespace vh;
using B = BT;

// ---- what a call is given ----
constexpr size_t MAXK = 300, MAXM = 1100;
struct in_t
{
    alignas(64) u8 key[MAXK + 64]; alignas(64) u8 msg[MAXM + 64]; alignas(64) u8 tag[32];     // secrets; the tag is public when it is compared, but not which of its bytes differ
    alignas(64) u8 iv[16]; alignas(64) u8 aad[300];                                            // public
    size_t kn = 32, ko = 0, mn = 0, mo = 0, an = 0, tn = 16, on = 32; unsigned it = 1; u64 plan = 1;   // public sizes, offsets and call history
    const B* k() const { return reinterpret_cast<const B*>(key + ko); } const B* m() const { return reinterpret_cast<const B*>(msg + mo); } B* w() { return reinterpret_cast<B*>(msg + mo); }
    const B* v() const { return reinterpret_cast<const B*>(iv); } const B* a() const { return reinterpret_cast<const B*>(aad); } B* t() { return reinterpret_cast<B*>(tag); }
};
static in_t& I = *static_cast<in_t*>(aligned_alloc(4096, 8192));
static B* OUT = static_cast<B*>(aligned_alloc(4096, 8192));
enum kind_t { PLAIN, DECRYPT, KEYTAG };   // DECRYPT: message is the text of a tag; KEYTAG: no message
struct op_t { std::string name; size_t fixed_key; kind_t kind; size_t max; bool salted; std::function<void()> run; };
static std::vector<op_t> OPS;
static volatile u64 sink;
using vec = std::vector<B>;

template<class M> static void mac_ops(const std::string& n, size_t fixed)
{
    using W = mp::mac::apie<M>; enum : size_t { D = M::digest_size };
    OPS.push_back({n + ".oneshot", fixed, PLAIN, 300, false, [] { mp::mac::digest<M>(I.k(), I.kn, I.m(), I.mn, OUT, I.on % (D + 1)); }});
    OPS.push_back({n + ".containers", fixed, PLAIN, 200, false, [] { std::span<const B> k(I.k(), I.kn), m(I.m(), I.mn); std::array<B, D> d; mp::mac::digest<M>(k, m, d); memcpy(OUT, d.data(), D); auto e = mp::mac::digest<M>(k, m, I.on % (D + 1)); memcpy(OUT, e.data(), e.size()); }});
    OPS.push_back({n + ".history", fixed, PLAIN, 400, false, []
    {
        rng r(I.plan); W w(I.k(), I.kn); size_t p = 0; B d[D];
        for (int i = 0, e = int(1 + r.below(5)); i < e; i++)
        {
            size_t c = std::min<size_t>(I.mn - p, r.below(100)); w.update(I.m() + p, c); p += c;
            switch (r.below(6)) { case 0: { W x(w); x.digest(d); memcpy(OUT, d, D); break; } case 1: w.digest(d, r.below(D + 1)); break; case 2: w.initialize(I.k(), I.kn); break; case 3: { W x(I.k(), I.kn); x = w; x.update(I.m(), p); w = std::move(x); break; } default: break; }
        }
        w.digest(d); memcpy(OUT, d, D);
    }});
}
template<class K, bool HK> static void kdf_ops(const std::string& n)
{
    using W = mp::kdf::apie<K>;
    OPS.push_back({n + ".oneshot", 0, KEYTAG, 0, true, [] { if constexpr (HK) mp::kdf::derive<K>(I.k(), I.kn, I.a(), I.an, I.v(), size_t(7), OUT, I.on); else mp::kdf::derive<K>(I.k(), I.kn, I.a(), I.an, I.it, OUT, I.on); }});
    OPS.push_back({n + ".history", 0, KEYTAG, 0, true, []
    {
        rng r(I.plan); auto mk = [] { if constexpr (HK) return W(I.k(), I.kn, I.a(), I.an, I.v(), 7); else return W(I.k(), I.kn, I.a(), I.an, I.it); }; W w = mk();
        for (int i = 0, e = int(1 + r.below(4)); i < e; i++) { w.derive(OUT, r.below(40)); if (r.chance(3)) { W x(w); x.derive(OUT + 50, r.below(30)); } if (r.chance(5)) w = mk(); }
    }});
}
template<class C> static void cipher_ops(const std::string& n)
{
    using W = mp::cipher::apie<C>;
    OPS.push_back({n + ".oneshot", 32, PLAIN, 1000, false, [] { if (I.plan & 1) mp::cipher::encrypt<C>(I.k(), 32, I.v(), 16, I.m(), I.mn, OUT); else mp::cipher::decrypt<C>(I.k(), 32, I.v(), 16, I.m(), I.mn, OUT); }});
    OPS.push_back({n + ".containers", 32, PLAIN, 300, false, [] { std::span<const B> k(I.k(), 32), v(I.v(), 16), m(I.m(), I.mn); auto e = mp::cipher::encrypt<C>(k, v, m); memcpy(OUT, e.data(), e.size()); mp::cipher::decrypt<C>(k, v, m, e); memcpy(OUT, e.data(), e.size()); }});
    OPS.push_back({n + ".history", 32, PLAIN, 700, false, []
    {
        rng r(I.plan); W w(I.k(), 32, I.v(), 16); size_t p = 0;
        for (int i = 0, e = int(1 + r.below(6)); i < e; i++) { size_t c = std::min<size_t>(I.mn - p, r.below(r.chance(3) ? 300 : 70)); bool ip = r.chance(4); if (r.chance(2)) w.encrypt(I.m() + p, c, ip ? I.w() + p : OUT + p); else w.decrypt(I.m() + p, c, OUT + p); p += c; if (r.chance(5)) { W x(w); x.encrypt(I.m(), p, OUT); } if (r.chance(8)) w.initialize(I.k(), 32, I.v(), 16); }
    }});
}
template<class C> static void aead_ops(const std::string& n)
{
    using W = mp::aead::apie<C>;
    OPS.push_back({n + ".encrypt", 32, PLAIN, 600, false, [] { mp::aead::encrypt<C>(I.k(), 32, I.v(), 12, I.a(), I.an, I.m(), I.mn, OUT, OUT + I.mn); }});
    OPS.push_back({n + ".encrypt.containers", 32, PLAIN, 200, false, [] { std::span<const B> k(I.k(), 32), v(I.v(), 12), a(I.a(), I.an), m(I.m(), I.mn); auto [c, t] = mp::aead::encrypt<C>(k, v, a, m); memcpy(OUT, c.data(), c.size()); memcpy(OUT + 4000, t.data(), t.size()); }});
    OPS.push_back({n + ".encrypt.history", 32, PLAIN, 500, false, []
    {
        rng r(I.plan); W w(I.k(), 32, I.v(), 12); size_t p = 0; w.aad(I.a(), I.an / 2); w.aad(I.a() + I.an / 2, I.an - I.an / 2); B t[16];
        for (int i = 0, e = int(1 + r.below(5)); i < e; i++) { size_t c = std::min<size_t>(I.mn - p, r.below(150)); if (r.chance(3)) w.decrypt(I.m() + p, c, OUT + p); else w.encrypt(I.m() + p, c, OUT + p); p += c; if (r.chance(4)) { W x(w); x.digest(t); } }
        w.digest(t, r.chance(2) ? 16 : r.below(17)); memcpy(OUT + 4000, t, 16);
    }});
    OPS.push_back({n + ".decrypt", 32, DECRYPT, 300, false, [] { milo::error e; mp::aead::decrypt<C>(I.k(), 32, I.v(), 12, I.a(), I.an, I.m(), I.mn, I.t(), I.tn, OUT, e); sink = u64(milo::error::code(e)); }});
    OPS.push_back({n + ".decrypt.throwing", 32, DECRYPT, 100, false, [] { try { mp::aead::decrypt<C>(I.k(), 32, I.v(), 12, I.a(), I.an, I.m(), I.mn, I.t(), I.tn, OUT); sink = 0; } catch (const milo::error&) { sink = 1; } }});
    OPS.push_back({n + ".decrypt.containers", 32, DECRYPT, 100, false, [] { std::span<const B> k(I.k(), 32), v(I.v(), 12), a(I.a(), I.an), m(I.m(), I.mn), t(I.t(), I.tn); milo::error e; auto o = mp::aead::decrypt<C, vec>(k, v, a, m, t, e); sink = u64(milo::error::code(e)); memcpy(OUT, o.data(), o.size()); }});
    OPS.push_back({n + ".verify", 32, DECRYPT, 150, false, [] { rng r(I.plan); W w(I.k(), 32, I.v(), 12); w.aad(I.a(), I.an); size_t c = I.mn ? r.below(I.mn + 1) : 0; w.decrypt(I.m(), c, OUT); w.decrypt(I.m() + c, I.mn - c, OUT + c); if (r.chance(3)) { W x(w); milo::error e; x.verify(I.t(), I.tn, e); sink = u64(milo::error::code(e)); } milo::error e; std::span<const B> t(I.t(), I.tn); if (r.chance(2)) w.verify(t, e); else w.verify(I.t(), I.tn, e); sink = u64(milo::error::code(e)); }});
    OPS.push_back({n + ".verify.throwing", 32, DECRYPT, 50, false, [] { W w(I.k(), 32, I.v(), 12); w.aad(I.a(), I.an); w.decrypt(I.m(), I.mn, OUT); try { w.verify(I.t(), I.tn); sink = 0; } catch (const milo::error&) { sink = 1; } }});
}
static void ops()
{
    #define T_HM(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { using H = typename decltype(t)::type; if (TAINT && be[0] == 'n') return; mac_ops<prim::hmac<H>>(std::string("hmac.") + ref::aname(ref::N) + "." + be, 0); });
    #define T_KD(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { using H = typename decltype(t)::type; if (TAINT && be[0] == 'n') return; kdf_ops<prim::hkdf<H>, true>(std::string("hkdf.") + ref::aname(ref::N) + "." + be); kdf_ops<prim::pbkdf<H>, false>(std::string("pbkdf2.") + ref::aname(ref::N) + "." + be); });
    #if PART == 0
    FOR_ALG(T_HM)
    #elif PART == 1
    FOR_ALG(T_KD)
    #elif PART == 2
    prim::cipher_backends([&](const char* be, auto t) { cipher_ops<typename decltype(t)::type>(std::string("cipher.") + be); });
    mac_ops<prim::poly>("poly", 32);
    #else
    prim::aead_backends([&](const char* be, auto t) { aead_ops<typename decltype(t)::type>(std::string("aead.") + be); });
    prim::cipher_backends([&](const char* be, auto t) { if (be[1] == 'n' || be[1] == 'w') return; aead_ops<mp::detail::aead_chacha_20_poly_1305<typename decltype(t)::type, prim::poly>>(std::string("aead.") + be); });
    #endif
}

// ---- secrets ----
struct secret { bytes key, msg, tag; };
static void fill(rng& r, bytes& b, u64 mode)
{
    switch (mode)
    {
        case 0: for (auto& x : b) x = u8(r.next()); break;
        case 1: for (auto& x : b) x = 0; break;
        case 2: for (auto& x : b) x = 0xff; break;
        case 3: for (auto& x : b) x = u8(0x80 | u8(r.next())); break;
        case 4: for (auto& x : b) x = u8('a' + r.below(26)); break;
        case 5: for (auto& x : b) x = 0; if (!b.empty()) b[r.below(b.size())] = u8(1 + r.below(255)); break;
        case 6: for (auto& x : b) x = u8(r.next()); for (size_t i = b.size() - std::min<size_t>(b.size(), r.below(20)); i < b.size(); i++) b[i] = 0; break;
        case 7: for (auto& x : b) x = u8(r.next()); for (size_t i = 0, e = std::min<size_t>(b.size(), r.below(20)); i < e; i++) b[i] = 0; break;
        default: for (auto& x : b) x = 0xff; if (!b.empty()) b[r.below(b.size())] = u8(r.next()); break;
    }
}
static void poly_edge(rng& r, secret& s)   // r = 1 or 2, blocks that put the accumulator next to 2^130 - 5
{
    if (s.key.size() < 32) return; memset(s.key.data(), 0, 16); s.key[0] = u8(1 + r.below(2)); if (r.chance(2)) for (size_t i = 16; i < 32; i++) s.key[i] = 0xff;
    for (auto& x : s.msg) x = 0xff; if (s.msg.size() >= 16) { s.msg[0] = u8(0xf8 + r.below(8)); }
}
static void tag_of(secret& s, const u8* nonce, const bytes& aad) { auto d = ref::aead_tag(s.key.data(), nonce, aad.data(), aad.size(), s.msg.data(), s.msg.size()); s.tag.assign(d.begin(), d.end()); }

// ---- traces ----
#if !TAINT
struct ent { u64 ip, ea; };
constexpr u64 CAP = 6000000;
struct trace_t { u64 n, other; bool ok; u8 out[64]; ent e[CAP]; };
static trace_t* TR[2];
struct ins { u8 base[2], index[2], scale[2], n; u8 seg; int32_t disp[2]; };
static u64 lo = ~0ull, hi = 0; static std::vector<uint32_t> at; static std::vector<ins> INS; static std::vector<std::pair<u64, std::string>> SYM;
static trace_t* cur_tr; static u64 fsbase;
static int regno(const char* p, size_t n)
{
    static const std::pair<const char*, int> R[] = {{"rax", REG_RAX}, {"rbx", REG_RBX}, {"rcx", REG_RCX}, {"rdx", REG_RDX}, {"rsi", REG_RSI}, {"rdi", REG_RDI}, {"rbp", REG_RBP}, {"rsp", REG_RSP}, {"r8", REG_R8}, {"r9", REG_R9}, {"r10", REG_R10}, {"r11", REG_R11}, {"r12", REG_R12}, {"r13", REG_R13}, {"r14", REG_R14}, {"r15", REG_R15}, {"rip", 100}};
    for (auto& x : R) if (strlen(x.first) == n && !strncmp(p, x.first, n)) return x.second;
    return -1;
}
// Reads the program's own disassembly: which addresses does each instruction touch?
static void decode()
{
    std::string cmd = strf("objdump -d --no-show-raw-insn -w /proc/%d/exe", int(getpid())); FILE* f = popen(cmd.c_str(), "r"); if (!f) { fprintf(stderr, "no objdump\n"); _exit(3); } char* line = nullptr; size_t cap = 0; std::vector<std::pair<u64, ins>> all;
    while (getline(&line, &cap, f) > 0)
    {
        if (line[0] == '0') { char* q; u64 a = strtoull(line, &q, 16); char* s = strchr(q, '<'); if (s) { std::string nm(s + 1); nm = nm.substr(0, nm.rfind(">:")); SYM.push_back({a, nm}); } continue; }
        if (line[0] != ' ') continue;
        char* q; u64 a = strtoull(line, &q, 16); if (*q != ':') continue; q++; while (*q == ' ' || *q == '\t') q++;
        ins x{}; lo = std::min(lo, a); hi = std::max(hi, a);
        std::string t(q); size_t c = t.find_first_of("#<"); if (c != std::string::npos) t.resize(c);
        std::string mn = t.substr(0, t.find_first_of(" \t\n")); bool none = mn.compare(0, 3, "lea") == 0 || mn.compare(0, 3, "nop") == 0 || t.find("nop") != std::string::npos || mn.compare(0, 8, "prefetch") == 0;
        if (t.find("%fs:") != std::string::npos) x.seg = 1;
        if (!none) for (size_t p = 0; (p = t.find('(', p)) != std::string::npos && x.n < 2; )
        {
            size_t e = t.find(')', p); std::string in = t.substr(p + 1, e - p - 1); size_t d = p; while (d && (isxdigit(t[d - 1]) || t[d - 1] == 'x' || t[d - 1] == '-')) d--;
            int b = -1, ix = -1, sc = 1; size_t c1 = in.find(','); std::string bs = in.substr(0, c1); if (!bs.empty() && bs[0] == '%') b = regno(bs.c_str() + 1, bs.size() - 1);
            if (c1 != std::string::npos) { size_t c2 = in.find(',', c1 + 1); std::string is = in.substr(c1 + 1, c2 == std::string::npos ? std::string::npos : c2 - c1 - 1); if (!is.empty() && is[0] == '%') ix = regno(is.c_str() + 1, is.size() - 1); if (c2 != std::string::npos) sc = atoi(in.c_str() + c2 + 1); }
            x.base[x.n] = b < 0 ? 255 : u8(b); x.index[x.n] = ix < 0 ? 255 : u8(ix); x.scale[x.n] = u8(sc); x.disp[x.n] = d < p ? int32_t(strtoll(t.substr(d, p - d).c_str(), nullptr, 16)) : 0; x.n++; p = e;
        }
        all.push_back({a, x});
    }
    pclose(f); free(line); if (all.size() < 1000) { fprintf(stderr, "objdump gave %zu instructions\n", all.size()); _exit(3); }
    at.assign(size_t(hi - lo + 1), 0); INS.push_back(ins{}); for (auto& x : all) if (x.second.n) { at[size_t(x.first - lo)] = uint32_t(INS.size()); INS.push_back(x.second); } else at[size_t(x.first - lo)] = 0;
    std::sort(SYM.begin(), SYM.end()); count("instructions_decoded", all.size());
}
static void trap(int, siginfo_t*, void* uc)
{
    auto* g = static_cast<ucontext_t*>(uc)->uc_mcontext.gregs; u64 ip = u64(g[REG_RIP]), ea = 0; trace_t* t = cur_tr;
    if (ip >= lo && ip <= hi)
    {
        if (uint32_t k = at[ip - lo])
        {
            const ins& x = INS[k];
            for (int i = 0; i < x.n; i++) { u64 v = u64(int64_t(x.disp[i])); if (x.base[i] < 100) v += u64(g[x.base[i]]); if (x.index[i] < 100) v += u64(g[x.index[i]]) * x.scale[i]; ea = ea * 0x9e3779b97f4a7c15ull + v + 1; }
        }
    }
    else t->other++;
    if (t->n < CAP) t->e[t->n] = {ip, ea};
    t->n++;
}
static inline void begin() { asm volatile("lea -128(%%rsp), %%rsp; pushfq; orq $0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); }
static inline void end() { asm volatile("lea -128(%%rsp), %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; lea 128(%%rsp), %%rsp" ::: "memory", "cc"); }
static std::string where(u64 ip)
{
    auto i = std::upper_bound(SYM.begin(), SYM.end(), std::pair<u64, std::string>(ip, "\xff")); if (i == SYM.begin()) return strf("%#llx", (unsigned long long)ip); --i;
    int st = 0; char* d = abi::__cxa_demangle(i->second.c_str(), nullptr, nullptr, &st); std::string s = d ? d : i->second; free(d); if (s.size() > 120) s = s.substr(0, 120); return strf("%s+%llu", s.c_str(), (unsigned long long)(ip - i->first));
}
static void traced(const op_t& op, const secret& s, trace_t* t)
{
    t->n = t->other = 0; t->ok = false; cur_tr = t; fflush(stdout); pid_t c = fork(); if (c < 0) { fprintf(stderr, "cannot fork\n"); _exit(3); }
    if (c == 0)
    {
        alarm(100); memcpy(I.key + I.ko, s.key.data(), s.key.size()); memcpy(I.msg + I.mo, s.msg.data(), s.msg.size()); memcpy(I.tag, s.tag.data(), s.tag.size());
        static u8 alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, nullptr);
        begin(); op.run(); end(); t->ok = true; _exit(0);
    }
    int st = 0; waitpid(c, &st, 0); beat(); if (!t->ok) { if (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL) { fail(strf("%s: died of signal %d", op.name.c_str(), WTERMSIG(st))); return; } fprintf(stderr, "a traced call did not end (%d)\n", st); _exit(3); }
}   // (nothing is allocated between the forks of one case)
static int compare(const trace_t* a, const trace_t* b, u64& k)
{
    u64 n = std::min({a->n, b->n, CAP}); if (a->n == b->n && !memcmp(a->e, b->e, size_t(n) * sizeof(ent))) return 0;
    for (k = 0; k < n; k++) { if (a->e[k].ip != b->e[k].ip) return 1; if (a->e[k].ea != b->e[k].ea) return 2; }
    return 1;
}
#endif

static void judge(const op_t& op, const secret& x, const secret& y, const std::string& what)
{
    #if !TAINT
    traced(op, x, TR[0]); traced(op, y, TR[1]); u64 k = 0, total = TR[0]->n + TR[1]->n; int d = compare(TR[0], TR[1], k);
    if (d)
    {
        // The same secret again: only a difference that the secret causes counts.
        u64 n0 = TR[0]->n; ent e0 = k < CAP ? TR[0]->e[k] : ent{}, p0 = k && k < CAP ? TR[0]->e[k - 1] : ent{}, e1 = k < CAP ? TR[1]->e[k] : ent{};
        traced(op, x, TR[1]); u64 k2 = 0; if (compare(TR[0], TR[1], k2)) { fprintf(stderr, "%s: the trace of one secret is not stable (%s)\n", op.name.c_str(), where(TR[0]->e[k2].ip).c_str()); _exit(3); }
        fail(strf("%s: %s: after %llu of %llu equal steps %s in %s [%s | %s, from %s] keys %s %s texts %s %s tags %s %s", op.name.c_str(), what.c_str(), (unsigned long long)k, (unsigned long long)n0, d == 1 ? "the path depends on the secret" : "the address depends on the secret", where(d == 1 ? p0.ip : e0.ip).c_str(), where(e0.ip).c_str(), where(e1.ip).c_str(), where(p0.ip).c_str(), hex(x.key).c_str(), hex(y.key).c_str(), hex(x.msg).c_str(), hex(y.msg).c_str(), hex(x.tag).c_str(), hex(y.tag).c_str()));
    }
    count("instructions_traced", total); count("trace_pairs"); if (TR[0]->n > CAP) count("traces_cut");
    if (getenv("VH_SHOW")) printf("%s %llu steps, %llu elsewhere\n", op.name.c_str(), (unsigned long long)TR[0]->n, (unsigned long long)TR[0]->other);
    #else
    (void)y; memcpy(I.key + I.ko, x.key.data(), x.key.size()); memcpy(I.msg + I.mo, x.msg.data(), x.msg.size()); memcpy(I.tag, x.tag.data(), x.tag.size());
    VALGRIND_MAKE_MEM_UNDEFINED(I.key + I.ko, I.kn); VALGRIND_MAKE_MEM_UNDEFINED(I.msg + I.mo, I.mn); u64 n = VALGRIND_COUNT_ERRORS;
    op.run();
    n = VALGRIND_COUNT_ERRORS - n; VALGRIND_MAKE_MEM_DEFINED(&I, sizeof I); VALGRIND_MAKE_MEM_DEFINED(OUT, 8192);
    // The outcome of a verification is public: it may be branched on a few times per verification, but not per byte.
    u64 limit = op.kind == DECRYPT ? 6 : 0; if (n > limit) fail(strf("%s: %s: memcheck saw %llu branches or addresses that depend on secret bytes", op.name.c_str(), what.c_str(), (unsigned long long)n));
    count("tainted_calls"); count("tainted_bytes", I.kn + I.mn); if (getenv("VH_SHOW")) printf("%s %llu\n", op.name.c_str(), (unsigned long long)n);
    #endif
}
static const size_t LENS[] = {0, 1, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 192, 255, 256, 257, 511, 512, 513};
int main()
{
    init(); ops(); memset(&I, 0, 8192); memset(OUT, 0, 8192);
    #if !TAINT
    for (auto& t : TR) { t = static_cast<trace_t*>(mmap(nullptr, sizeof(trace_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (t == MAP_FAILED) _exit(3); }
    decode();
    #else
    if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under valgrind\n"); return 3; }
    { u8* p = static_cast<u8*>(malloc(8)); VALGRIND_MAKE_MEM_UNDEFINED(p, 8); u64 n = VALGRIND_COUNT_ERRORS; if (p[3] == 7) sink = 1; if (VALGRIND_COUNT_ERRORS == n) { fprintf(stderr, "memcheck does not see the taint\n"); return 3; } free(p); }
    #endif
    for (auto& op : OPS) if (getenv("VH_NOWARM") == nullptr) { I.kn = op.fixed_key ? op.fixed_key : 20; I.mn = 20; op.run(); }
    u64 slice = 0, slices = 1; if (const char* s = getenv("VH_SLICE")) sscanf(s, "%llu/%llu", (unsigned long long*)&slice, (unsigned long long*)&slices);
    cases(TAINT ? "C24.taint" : "C24.trace", u64(OPS.size()) * tier(TAINT ? 30 : ROUNDS, TAINT ? 400 : ROUNDS * 12), [&](rng& r, u64 c)
    {
        const op_t& op = OPS[c % OPS.size()]; u64 round = c / OPS.size(); if ((c + round) % slices != slice) return;
        size_t bl = 64; I.kn = op.fixed_key ? (op.name[0] == 'p' && r.chance(3) ? r.below(33) : op.fixed_key) : r.chance(2) ? LENS[r.below(std::size(LENS) - 5)] : r.below(200); (void)bl;
        I.mn = op.max ? (r.chance(2) ? std::min(op.max, LENS[r.below(std::size(LENS))]) : r.below(op.max + 1)) : 0; I.an = op.salted ? (r.chance(4) ? r.below(150) : r.below(50)) : r.below(40); I.tn = r.chance(5) ? r.below(17) : 16;
        I.ko = r.chance(2) ? 0 : r.below(33); I.mo = r.chance(2) ? 0 : r.below(33); I.on = 1 + r.below(op.salted ? 100 : 64); I.it = unsigned(1 + r.below(3)); I.plan = r.next();
            if (!TAINT && tier(0, 1) == 0) { I.mn = std::min<size_t>(I.mn, op.name[0] == 'h' ? 140 : 330); if (op.salted) { I.kn = std::min<size_t>(I.kn, 140); I.on = 1 + I.on % 45; I.it = 1 + I.it % 2; } }
        bytes aad; for (size_t i = 0; i < 300; i++) I.aad[i] = u8(r.next()); aad.assign(I.aad, I.aad + I.an); for (auto& x : I.iv) x = u8(r.next()); if (r.chance(3)) memset(I.iv, 0xff, 4);
        if (I.it > 1 && op.name[0] == 'p' && op.name[1] == 'b' && I.on > 70) I.it = 2;
        secret s[2]; u64 m0 = r.below(9), m1 = r.below(9);
        for (int i = 0; i < 2; i++) { s[i].key.resize(I.kn); s[i].msg.resize(I.mn); fill(r, s[i].key, i ? m1 : m0); fill(r, s[i].msg, r.chance(2) ? (i ? m1 : m0) : r.below(9)); }
        if (r.chance(3)) s[1].key = s[0].key; else if (r.chance(3)) s[1].msg = s[0].msg;
        if (r.chance(4) && I.kn) { s[1] = s[0]; s[1].key[r.below(I.kn)] ^= u8(1 << r.below(8)); }
        if ((op.name[0] == 'p' && op.name[1] == 'o') && r.chance(2)) poly_edge(r, s[r.below(2)]);
        std::string what = strf("key of %zu bytes, message of %zu", I.kn, I.mn);
        if (op.kind == DECRYPT)
        {
            for (auto& x : s) tag_of(x, I.iv, aad);
            int k = int((round + r.below(3)) % 3);
            if (k == 0) what += ", both tags good";
            else if (k == 1) { for (auto& x : s) { x.tag[r.below(std::max<size_t>(I.tn, 1))] ^= u8(1 << r.below(8)); } what += ", both tags bad"; if (I.tn == 0) what += " outside"; }
            else { s[1] = s[0]; for (int i = 0; i < 2; i++) { if (I.tn == 0) break; if (r.chance(3)) { for (size_t j = 0; j < I.tn; j++) s[i].tag[j] ^= u8(1 + r.below(255)); } else s[i].tag[r.below(I.tn)] ^= u8(1 + r.below(255)); } what += ", one key, different bad tags"; }
        }
        eval(sigs({sig_of(op.name.data(), op.name.size()), I.kn, I.mn, I.an, I.plan, m0, m1})); if (c < 4) sample(op.name + ": " + what);
        current("%s: %s", op.name.c_str(), what.c_str());
        judge(op, s[0], s[1], what);
    });
    return finish();
}
