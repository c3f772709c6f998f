// C07 and C02 for ChaCha20.
#include "prim.h"
#include "ring.h"
using namespace vh;

static uint32_t counter(rng& r) { switch (r.below(4)) { case 0: return uint32_t(r.below(3)); case 1: return uint32_t(0) - uint32_t(r.below(40)); case 2: return 0x80000000u - uint32_t(r.below(20)); default: return uint32_t(r.next()); } }
static bytes iv_of(rng& r, uint32_t& c) { bytes iv(16); r.data(iv.data(), 16); c = counter(r); memcpy(iv.data(), &c, 4); return iv; }

template<class C> void run(const char* be)
{
    if (C::key_size != 32 || C::iv_size != 16) fail("sizes");
    auto g = [&](const char* n) { return std::string(n) + ".chacha20." + be; };
    auto one = [&](rng& r, size_t n, bool enc, const char* what)
    {
        auto k = r.vec(32); uint32_t c; auto iv = iv_of(r, c); auto m = r.vec(n); bytes o(n, 0xa5), want(n);
        current("%s %s len=%zu ctr=%08x k=%s iv=%s", be, enc ? "encrypt" : "decrypt", n, c, hex(k).c_str(), hex(iv).c_str());
        ref::chacha_xor(k.data(), c, iv.data() + 4, m.data(), n, want.data());
        auto got = enc ? mp::cipher::encrypt<C>(k.data(), k.size(), iv.data(), iv.size(), m.data(), n, o.data()) : mp::cipher::decrypt<C>(k.data(), k.size(), iv.data(), iv.size(), m.data(), n, o.data());
        if (got != n) fail(strf("returned size %zu for %zu", got, n));
        check_eq(o, want, what); eval(sigs({n, c, enc, sig_of(k.data(), 32)}), n > 0);
    };
    cases(g("C07.len").c_str(), 1100, [&](rng& r, u64 n) { for (unsigned i = 0; i < tier(8, 60); i++) one(r, n, i & 1, "one shot"); });
    cases(g("C07.rand").c_str(), tier(1500, 60000), [&](rng& r, u64 i) { size_t n = r.len(i % 16 ? 5000 : 100000); one(r, n, i & 1, "one shot"); if (i < 2) sample(strf("chacha20 %s len=%zu", be, n)); });
    // every initial counter close to the wrap, sizes up to several batches: the wrap falls on every block of a batch
    cases(g("C07.wrap").c_str(), 48, [&](rng& r, u64 d)
    {
        for (size_t n : {1, 63, 64, 65, 255, 256, 257, 300, 511, 512, 513, 700, 1024, 1600, 2048, 2500, 3300})
        {
            auto k = r.vec(32); bytes iv(16); r.data(iv.data(), 16); if (r.chance(2)) memset(iv.data() + 4, 255, 12); uint32_t c = 0u - uint32_t(d); memcpy(iv.data(), &c, 4); auto m = r.vec(n); bytes o(n), want(n);
            current("%s wrap ctr=%08x len=%zu", be, c, n); ref::chacha_xor(k.data(), c, iv.data() + 4, m.data(), n, want.data());
            mp::cipher::apie<C> e(k, iv); e.encrypt(m.data(), n, o.data()); check_eq(o, want, "counter wrap");
            mp::cipher::apie<C> f(k, iv); size_t p = 0; bytes o2(n); for (auto s : split(r, n)) { f.decrypt(m.data() + p, s, o2.data() + p); p += s; } check_eq(o2, want, "counter wrap in pieces"); eval(sigs({d, n}));
        }
    });
    cases(g("C07.round").c_str(), tier(800, 20000), [&](rng& r, u64)
    {
        auto k = r.vec(32); uint32_t c; auto iv = iv_of(r, c); auto m = r.vec(r.len(3000)); bytes ct(m.size()), pt(m.size()); current("%s round trip len=%zu", be, m.size());
        mp::cipher::encrypt<C>(k.data(), 32, iv.data(), 16, m.data(), m.size(), ct.data()); mp::cipher::decrypt<C>(k.data(), 32, iv.data(), 16, ct.data(), ct.size(), pt.data()); check_eq(pt, m, "round trip"); eval(sigs({m.size(), sig_of(ct.data(), ct.size())}), !m.empty());
    });
    cases(g("C07.bulk").c_str(), tier(2, 10), [&](rng& r, u64) { one(r, (4 << 20) + r.below(4096), r.chance(2), "bulk"); });
    for (int part = 0; part < 2; part++) cases(g(part ? "C02.large" : "C07.large").c_str(), tier(10, 14), [&](rng& r, u64 i)
    {
        auto k = r.vec(32); uint32_t ctr; auto iv = iv_of(r, ctr); bytes m((size_t(64) << (8 + i)) + r.below(700)); r.fill(m.data(), m.size()); size_t n = m.size(), c = part ? r.chance(2) ? r.below(n) : r.below(600) : n; bytes o(n), want(n);
        current("%s len=%zu first=%zu ctr=%08x", be, n, c, ctr); ref::chacha_xor(k.data(), ctr, iv.data() + 4, m.data(), n, want.data()); mp::cipher::apie<C> h(k, iv); h.encrypt(m.data(), c, o.data()); beat(); h.encrypt(m.data() + c, n - c, o.data() + c);
        check_eq(o, want, part ? "large text in pieces" : "large text"); eval(sigs({n, c, ctr}), true);
    });
    // two way splits: all of sizes around the batch sizes
    cases(g("C02.two").c_str(), 90, [&](rng& r, u64 i)
    {
        size_t n = i < 40 ? 40 + i * 7 : 200 + (i - 40) * 17; auto k = r.vec(32); uint32_t c; auto iv = iv_of(r, c); auto m = r.vec(n); bytes want(n); ref::chacha_xor(k.data(), c, iv.data() + 4, m.data(), n, want.data());
        for (size_t s = 0; s <= n; s++)
        {
            current("%s len=%zu split=%zu ctr=%08x", be, n, s, c); bytes o(n); mp::cipher::apie<C> h(k, iv); h.encrypt(m.data(), s, o.data()); h.encrypt(m.data() + s, n - s, o.data() + s); check_eq(o, want, "two way split"); eval(sigs({n, s}));
        }
    });
    cases(g("C02.many").c_str(), tier(4000, 100000), [&](rng& r, u64 i)
    {
        auto k = r.vec(32); uint32_t c; auto iv = iv_of(r, c); auto m = r.vec(r.len(i % 8 ? 2500 : 9000)); size_t n = m.size(); bytes o(n), want(n); ref::chacha_xor(k.data(), c, iv.data() + 4, m.data(), n, want.data());
        auto parts = split(r, n); u64 sg = n; for (auto x : parts) sg = mix(sg ^ x); bool mixed = r.chance(2); current("%s len=%zu parts=%zu mixed=%d ctr=%08x", be, n, parts.size(), mixed, c);
        mp::cipher::apie<C> h(k, iv); size_t p = 0; for (auto x : parts) { size_t got = mixed && r.chance(2) ? h.decrypt(m.data() + p, x, o.data() + p) : h.encrypt(m.data() + p, x, o.data() + p); if (got != x) fail("returned another size"); p += x; }
        check_eq(o, want, "many way split"); eval(sg, parts.size() > 1); count("pieces", parts.size()); if (i < 1) sample(strf("chacha20 %s len=%zu in %zu pieces", be, n, parts.size()));
    });
}
// A text longer than 2^32 bytes in one call: only what was written last can be seen, and how the stream goes on.
template<class C> void big(const char* be)
{
    cases((std::string("C07.big.") + be).c_str(), 2, [&](rng& r, u64 i)
    {
        const size_t U = ring::unit, n = (size_t(1) << 32) + U * (1 + i) + (i ? 12345 : 0); ring in(n, false), out(n); in.fill(r); auto k = r.vec(32); uint32_t c; auto iv = iv_of(r, c); current("%s text of %zu bytes ctr=%08x", be, n, c);
        mp::cipher::apie<C> h(k, iv); auto got = h.encrypt(in.p, n, out.p); if (got != n) fail(strf("returned %zu for %zu", got, n));
        bytes want(U); size_t last = n % U ? n - n % U : n - U;   // start of the last round
        ref::chacha_xor(k.data(), uint32_t(c + last / 64), iv.data() + 4, in.p, n - last, want.data());
        if (n % U) { bytes prev(U); ref::chacha_xor(k.data(), uint32_t(c + (last - U) / 64), iv.data() + 4, in.p, U, prev.data()); std::copy(prev.begin() + long(n % U), prev.end(), want.begin() + long(n % U)); }
        check_eq(out.p, U, want.data(), U, "end of a text of more than 2^32 bytes");
        bytes z(300), o(300), w(300 + n % 64); bytes zz(300 + n % 64); ref::chacha_xor(k.data(), uint32_t(c + n / 64), iv.data() + 4, zz.data(), zz.size(), w.data()); h.encrypt(z.data(), 300, o.data()); check_eq(o.data(), 300, w.data() + n % 64, 300, "text after more than 2^32 bytes");
        eval(sigs({n, c})); count("bytes_in_long_inputs", n);
    });
}
int main() { init(); if (getenv("BIG")) { no_hang_timer(); prim::cipher_backends([&](const char* n, auto t) { big<typename decltype(t)::type>(n); }); return finish(); } prim::cipher_backends([&](const char* n, auto t) { run<typename decltype(t)::type>(n); }); return finish(); }
