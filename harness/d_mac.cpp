// C03 and C02 for HMAC. -DALG=<ref::alg>
#include "prim.h"
#include "ring.h"
using namespace vh;
constexpr auto A = ref::alg(ALG);

template<class H> void run(const char* be)
{
    using M = prim::hmac<H>;
    const size_t D = ref::dlen(A), B = ref::blen(A);
    if (M::digest_size != D) fail("digest size");
    auto g = [&](const char* n) { return std::string(n) + "." + ref::aname(A) + "." + be; };
    auto one = [&](const bytes& k, const bytes& m, const char* what)
    {
        current("%s klen=%zu mlen=%zu k=%s m=%s", be, k.size(), m.size(), hex(k).c_str(), hex(m).c_str());
        u8 d[64]; auto got = mp::mac::digest<M>(k.data(), k.size(), m.data(), m.size(), d);
        auto want = ref::hmac(A, k.data(), k.size(), m.data(), m.size());
        check_eq(d, got, want.data(), want.size(), what); eval(sigs({k.size(), m.size(), sig_of(want.data(), want.size())}));
    };
    cases(g("C03.key").c_str(), 3 * B + 5, [&](rng& r, u64 n)
    {
        for (size_t ml : {size_t(0), size_t(1), B - 9, B - 1, B, B + 1, size_t(r.below(400))}) for (unsigned k = 0; k < tier(2, 12); k++) one(r.vec(n), r.vec(ml), "mac");
    });
    cases(g("C03.msg").c_str(), 3 * B + 5, [&](rng& r, u64 n)
    {
        for (size_t kl : {size_t(0), size_t(1), D, B - 1, B, B + 1, size_t(r.below(400))}) for (unsigned k = 0; k < tier(2, 12); k++) one(r.vec(kl), r.vec(n), "mac");
    });
    cases(g("C03.rand").c_str(), tier(1500, 40000), [&](rng& r, u64 i)
    {
        auto k = r.vec(r.len(600)), m = r.vec(r.len(3000));
        one(k, m, "mac"); if (i < 1) sample(strf("hmac %s %s klen=%zu mlen=%zu", ref::aname(A), be, k.size(), m.size()));
        // the key of another length class right after, on the same object
        auto k2 = r.vec(r.len(600)); mp::mac::apie<M> h(k.data(), k.size()); h.update(m); u8 d[64]; h.digest(d); h.initialize(k2.data(), k2.size()); h.update(m);
        auto n = h.digest(d); auto want = ref::hmac(A, k2.data(), k2.size(), m.data(), m.size()); check_eq(d, n, want.data(), want.size(), "mac after new key"); eval(sig_of(want.data(), want.size()));
    });
    cases(g("C03.long").c_str(), tier(2, 12), [&](rng& r, u64) { one(r.vec(r.below(300)), r.vec(200000 + r.below(200000)), "mac of long message"); one(r.vec(100000), r.vec(100), "mac with long key"); });
    for (int part = 0; part < 2; part++) cases(g(part ? "C02.large" : "C03.large").c_str(), tier(9, 13), [&](rng& r, u64 i)
    {
        auto size = [&] { return (B << (9 + i)) + B * r.below(4) + r.below(B); }; bytes k(i % 3 == 0 && !part ? size() : r.below(200)), m(i % 3 == 0 && !part ? r.below(300) : size()); r.fill(k.data(), k.size()); r.fill(m.data(), m.size()); size_t n = m.size(), c = part ? r.chance(2) ? r.below(n) : r.below(2 * B) : n;
        current("%s klen=%zu mlen=%zu first=%zu", be, k.size(), n, c); mp::mac::apie<M> h(k.data(), k.size()); h.update(m.data(), c); beat(); h.update(m.data() + c, n - c);
        u8 d[64]; auto got = h.digest(d); auto want = ref::hmac(A, k.data(), k.size(), m.data(), n); check_eq(d, got, want.data(), want.size(), part ? "large message in pieces" : "large message or key"); eval(sigs({k.size(), n, c}), true);
    });
    cases(g("C02.two").c_str(), 2 * B + 9, [&](rng& r, u64 n)
    {
        auto k = r.vec(r.len(300)), m = r.vec(n); auto want = ref::hmac(A, k.data(), k.size(), m.data(), m.size());
        for (size_t s = 0; s <= n; s++)
        {
            current("%s klen=%zu mlen=%zu split=%zu", be, k.size(), size_t(n), s);
            mp::mac::apie<M> h(k.data(), k.size()); h.update(m.data(), s); h.update(m.data() + s, n - s);
            u8 d[64]; auto got = h.digest(d); check_eq(d, got, want.data(), want.size(), "two way split"); eval(sigs({k.size(), n, s}));
        }
    });
    cases(g("C02.many").c_str(), tier(800, 20000), [&](rng& r, u64)
    {
        auto k = r.vec(r.len(300)), m = r.vec(r.len(3000)); auto parts = split(r, m.size()); u64 sg = m.size(); for (auto c : parts) sg = mix(sg ^ c);
        current("%s klen=%zu mlen=%zu parts=%zu", be, k.size(), m.size(), parts.size());
        mp::mac::apie<M> h(k.data(), k.size()); size_t p = 0; for (auto c : parts) { h.update(m.data() + p, c); p += c; }
        u8 d[64]; auto got = h.digest(d); auto want = ref::hmac(A, k.data(), k.size(), m.data(), m.size()); check_eq(d, got, want.data(), want.size(), "many way split"); eval(sg, parts.size() > 1); count("pieces", parts.size());
    });
}
// A key and a message longer than 2^32 bytes, in one call each.
static void big()
{
    using M = prim::hmac<typename prim::hash_of<A>::any>; const size_t n0 = (size_t(1) << 32) + ring::unit + 77;
    for (int part = 0; part < 2; part++) cases((std::string("C03.big.") + (part ? "msg." : "key.") + ref::aname(A)).c_str(), part == 2 ? 1 : 2, [&](rng& r, u64 i)
    {
        const size_t n = i ? (size_t(1) << 32) + r.below(65) : n0; ring l(n, false); l.fill(r); auto s = r.vec(1 + r.below(40)); const u8 *k = part ? s.data() : l.p, *m = part ? l.p : s.data(); size_t kn = part ? s.size() : n, mn = part ? n : s.size();
        current("klen=%zu mlen=%zu", kn, mn); auto want = ref::hmac(A, k, kn, m, mn); u8 d[64]; auto got = mp::mac::digest<M>(k, kn, m, mn, d);
        check_eq(d, got, want.data(), want.size(), part ? "mac of a message of more than 2^32 bytes" : "mac under a key of more than 2^32 bytes"); eval(sigs({kn, mn})); count("bytes_in_long_inputs", n);
    });
}

int main()
{
    init();
    if (getenv("BIG")) { no_hang_timer(); big(); return finish(); }
    prim::hash_backends<A>([&](const char* n, auto t) { run<typename decltype(t)::type>(n); });
    return finish();
}
