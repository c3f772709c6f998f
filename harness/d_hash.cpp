// C01 and C02 for hash functions. -DALG=<ref::alg>
#include "prim.h"
using namespace vh;
constexpr auto A = ref::alg(ALG);

template<class H> void run(const char* be)
{
    const size_t D = ref::dlen(A), B = ref::blen(A);
    static_assert(H::digest_size == 20 || H::digest_size >= 28);
    if (H::digest_size != D) fail(strf("digest size of %s is %zu", ref::aname(A), size_t(H::digest_size)));
    auto gname = [&](const char* g) { static std::string s[16]; static int k = 0; auto& r = s[k++ % 16]; r = std::string(g) + "." + ref::aname(A) + "." + be; return r.c_str(); };

    // every length over several blocks, several contents
    cases(gname("C01.len"), 4 * B + 24, [&](rng& r, u64 n)
    {
        for (unsigned k = 0; k < tier(6, 60); k++)
        {
            auto m = r.vec(n); current("%s len=%zu m=%s", be, size_t(n), hex(m).c_str());
            u8 d[64]; auto got = mp::hash::digest<H>(m.data(), m.size(), d);
            auto want = ref::hash(A, m.data(), m.size());
            check_eq(d, got, want.data(), want.size(), "digest"); eval(sigs({n, sig_of(want.data(), want.size())}), true);
        }
    });
    cases(gname("C01.rand"), tier(600, 20000), [&](rng& r, u64 i)
    {
        auto m = r.vec(r.len(i % 16 == 0 ? 70000 : 5000)); current("%s len=%zu m=%s", be, m.size(), hex(m).c_str());
        mp::hash::apie<H> h; size_t p = 0;
        if (r.chance(2)) { h.update(m.data(), m.size()); }
        else for (auto c : split(r, m.size())) { h.update(m.data() + p, c); p += c; }
        u8 d[64]; auto got = h.digest(d); auto want = ref::hash(A, m.data(), m.size());
        check_eq(d, got, want.data(), want.size(), "digest"); eval(sigs({m.size(), sig_of(want.data(), want.size())}));
        if (i < 2) sample(strf("%s %s len=%zu digest=%s", ref::aname(A), be, m.size(), hex(want).c_str()));
    });
    // from thousands of blocks to more than 2^17 (thorough 2^21), in one call and in few calls
    for (int part = 0; part < 2; part++) cases(gname(part ? "C02.large" : "C01.large"), tier(9, 13), [&](rng& r, u64 i)
    {
        bytes m((B << (9 + i)) + B * r.below(4) + r.below(B)); r.fill(m.data(), m.size()); size_t n = m.size(), c[3] = {}; if (part) { c[0] = r.chance(3) ? r.below(n) : r.below(2 * B); c[1] = r.chance(3) ? r.below(n - c[0]) : 0; c[2] = n - c[0] - c[1]; } else c[0] = n;
        current("%s len=%zu in %zu,%zu,%zu", be, n, c[0], c[1], c[2]); mp::hash::apie<H> h; size_t p = 0; for (auto x : c) { h.update(m.data() + p, x); p += x; beat(); }
        u8 d[64]; auto got = h.digest(d); auto want = ref::hash(A, m.data(), n); check_eq(d, got, want.data(), want.size(), part ? "large message in pieces" : "large message"); eval(sigs({n, c[0], c[1]}), true);
    });
    // every pair of lengths around the block size: all two way splits, and all three way splits at block edges
    const u64 N = 2 * B + 12;
    cases(gname("C02.two"), N, [&](rng& r, u64 n)
    {
        auto m = r.vec(n); auto want = ref::hash(A, m.data(), m.size());
        for (size_t k = 0; k <= n; k++)
        {
            current("%s len=%zu split=%zu m=%s", be, size_t(n), k, hex(m).c_str());
            mp::hash::apie<H> h; h.update(m.data(), k); h.update(m.data() + k, n - k);
            u8 d[64]; auto got = h.digest(d); check_eq(d, got, want.data(), want.size(), "two way split"); eval(sigs({n, k}));
        }
    });
    cases(gname("C02.three"), tier(1500, 60000), [&](rng& r, u64)
    {
        size_t n = r.below(4 * B + 5); auto m = r.vec(n); auto want = ref::hash(A, m.data(), m.size());
        size_t a = r.below(n + 1), b = a + r.below(n - a + 1);
        if (r.chance(2)) { a = std::min(n, r.below(4) * B + r.below(3) - (r.chance(2) ? 0 : 1)); if (a > n) a = 0; b = std::min(n, a + B * r.below(3) + r.below(2)); }
        current("%s len=%zu splits=%zu,%zu m=%s", be, n, a, b, hex(m).c_str());
        mp::hash::apie<H> h; h.update(m.data(), a); h.update(m.data() + a, b - a); h.update(m.data() + b, n - b);
        u8 d[64]; auto got = h.digest(d); check_eq(d, got, want.data(), want.size(), "three way split"); eval(sigs({n, a, b}));
    });
    cases(gname("C02.many"), tier(800, 20000), [&](rng& r, u64 i)
    {
        auto m = r.vec(r.len(4000)); auto parts = split(r, m.size()); u64 sg = m.size(); for (auto c : parts) sg = mix(sg ^ c);
        current("%s len=%zu parts=%zu m=%s", be, m.size(), parts.size(), hex(m).c_str());
        mp::hash::apie<H> h; size_t p = 0; for (auto c : parts) { h.update(m.data() + p, c); p += c; beat(); }
        u8 d[64]; auto got = h.digest(d); auto want = ref::hash(A, m.data(), m.size());
        check_eq(d, got, want.data(), want.size(), "many way split"); eval(sg, parts.size() > 1); count("pieces", parts.size());
        if (i < 2) sample(strf("%s %s len=%zu in %zu pieces", ref::aname(A), be, m.size(), parts.size()));
    });
}

// A message longer than 2^32 bytes: one small file mapped again and again. Digest expected in BIG_WANT.
template<class H> void big(const char* be, u64 total, size_t chunk)
{
    auto want = getenv("BIG_WANT"); if (!want) return;
    cases((std::string("C01.big.") + ref::aname(A) + "." + be).c_str(), 1, [&](rng&, u64)
    {
        const size_t unit = 1 << 20; const u64 span = (total + unit - 1) / unit * unit; int fd = memfd_create("big", 0); if (fd < 0 || ftruncate(fd, unit)) { fprintf(stderr, "memfd\n"); exit(2); }
        auto base = static_cast<u8*>(mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (base == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(2); }
        for (u64 o = 0; o < span; o += unit) if (mmap(base + o, unit, o ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "mmap fixed\n"); exit(2); }
        for (size_t i = 0; i < unit; i++) base[i] = u8(i * 167 + (i >> 8) * 13 + (i >> 16));
        mp::hash::apie<H> h; current("%s message of %llu bytes in calls of %zu bytes", be, (unsigned long long)total, chunk);
        for (u64 p = 0; p < total;) { u64 c = std::min<u64>(chunk, total - p); h.update(base + p, c); p += c; beat(); }
        u8 d[64]; auto got = h.digest(d); auto s = hex(d, got, 64);
        if (s != want) fail(strf("digest of %llu byte message: got %s want %s", (unsigned long long)total, s.c_str(), want));
        eval(total); count("bytes_in_long_messages", total); sample(strf("%s %s: %llu byte message, digest %s", ref::aname(A), be, (unsigned long long)total, s.c_str()));
    });
}

int main()
{
    init();
    if (auto e = getenv("BIG_TOTAL"))
    {
        // long single calls produce no heartbeat
        itimerval it{}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
        u64 total = strtoull(e, nullptr, 10); size_t chunk = strtoull(getenv("BIG_CHUNK"), nullptr, 10); const char* only = getenv("BIG_BACKEND");
        prim::hash_backends<A>([&](const char* n, auto t) { if (!only || !strcmp(only, n)) big<typename decltype(t)::type>(n, total, chunk); });
    }
    else prim::hash_backends<A>([&](const char* n, auto t) { run<typename decltype(t)::type>(n); });
    return finish();
}
