// C05, C06 and C02 for key derivation. -DALG=<ref::alg>
#include "prim.h"
#include "ring.h"
using namespace vh;
constexpr auto A = ref::alg(ALG);

template<class H> void run(const char* be)
{
    const size_t D = ref::dlen(A), B = ref::blen(A);
    using K = prim::hkdf<H>; using P = prim::pbkdf<H>;
    auto g = [&](const char* n) { return std::string(n) + "." + ref::aname(A) + "." + be; };
    auto lens = [&](rng& r) { size_t t[] = {0, 1, D, B - 1, B, B + 1, 2 * B, r.below(40), r.below(300)}; return t[r.below(9)]; };
    auto hk = [&](const bytes& ikm, const bytes& salt, const bytes& info, size_t n, const char* what)
    {
        current("%s ikm=%s salt=%s info=%s n=%zu", be, hex(ikm).c_str(), hex(salt).c_str(), hex(info).c_str(), n);
        bytes o(n + 1, 0xa5); auto got = mp::kdf::derive<K>(ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size(), o.data(), n);
        auto want = ref::hkdf(A, ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size(), n);
        check_eq(o.data(), got, want.data(), n, what); if (o[n] != 0xa5) fail("wrote past the key"); eval(sigs({n, ikm.size(), salt.size(), info.size(), sig_of(want.data(), want.size())}), n > 0);
    };
    cases(g("C05.len").c_str(), 5 * D + 3, [&](rng& r, u64 n) { for (unsigned i = 0; i < tier(3, 20); i++) hk(r.vec(lens(r)), r.vec(lens(r)), r.vec(lens(r)), n, "hkdf"); });
    cases(g("C05.rand").c_str(), tier(800, 20000), [&](rng& r, u64) { hk(r.vec(lens(r)), r.vec(lens(r)), r.vec(lens(r)), r.below(12 * D), "hkdf"); });
    cases(g("C05.full").c_str(), tier(6, 60), [&](rng& r, u64 i)
    {
        // the whole output the RFC allows, at once and in pieces
        size_t n = 255 * D - (i % 3 ? r.below(2 * D) : 0); auto ikm = r.vec(lens(r)), salt = r.vec(lens(r)), info = r.vec(lens(r)); hk(ikm, salt, info, n, "hkdf to the limit");
        auto want = ref::hkdf(A, ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size(), n); bytes o(n);
        mp::kdf::apie<K> h(ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size()); size_t p = 0; for (auto c : split(r, n)) { h.derive(o.data() + p, c); p += c; } check_eq(o, want, "hkdf to the limit in pieces"); eval(sigs({n, i, 1}));
        sample(strf("hkdf %s %s %zu bytes", ref::aname(A), be, n));
    });
    cases(g("C02.hkdf").c_str(), tier(3000, 60000), [&](rng& r, u64 i)
    {
        size_t n = r.below((i % 8 ? 5 : 40) * D); auto ikm = r.vec(lens(r)), salt = r.vec(r.below(40)), info = r.vec(r.below(60)); auto parts = split(r, n); u64 sg = n; for (auto c : parts) sg = mix(sg ^ c);
        if (r.chance(3)) { parts.clear(); for (size_t p = 0; p < n;) { size_t c = std::min<size_t>(n - p, D * r.below(4) + (r.chance(2) ? r.below(3) : 0)); if (!c && r.chance(2)) c = 1; parts.push_back(c); p += c; } }
        current("%s hkdf n=%zu parts=%zu", be, n, parts.size()); bytes o(n); mp::kdf::apie<K> h(ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size());
        size_t p = 0; for (auto c : parts) { auto got = h.derive(o.data() + p, c); if (got != c) fail("derive returned another size"); p += c; }
        check_eq(o, ref::hkdf(A, ikm.data(), ikm.size(), salt.data(), salt.size(), info.data(), info.size(), n), "hkdf in pieces"); eval(sg, parts.size() > 1); count("pieces", parts.size());
    });

    auto pb = [&](const bytes& ikm, const bytes& salt, uint32_t it, size_t n, const char* what)
    {
        current("%s ikm=%s salt=%s it=%u n=%zu", be, hex(ikm).c_str(), hex(salt).c_str(), it, n);
        bytes o(n + 1, 0xa5); auto got = mp::kdf::derive<P>(ikm.data(), ikm.size(), salt.data(), salt.size(), it, o.data(), n);
        auto want = ref::pbkdf2(A, ikm.data(), ikm.size(), salt.data(), salt.size(), it, n);
        check_eq(o.data(), got, want.data(), n, what); if (o[n] != 0xa5) fail("wrote past the key"); eval(sigs({n, ikm.size(), salt.size(), it, sig_of(want.data(), want.size())}), n > 0);
    };
    cases(g("C06.len").c_str(), 4 * D + 3, [&](rng& r, u64 n) { for (unsigned i = 0; i < tier(2, 12); i++) pb(r.vec(lens(r)), r.vec(lens(r)), uint32_t(1 + r.below(4)), n, "pbkdf2"); });
    cases(g("C06.iter").c_str(), tier(70, 400), [&](rng& r, u64 n) { pb(r.vec(lens(r)), r.vec(lens(r)), uint32_t(n + 1), r.below(2 * D + 2), "pbkdf2"); });
    cases(g("C06.manyiter").c_str(), tier(5, 40), [&](rng& r, u64 i) { static const uint32_t t[] = {256, 257, 1000, 4096, 65537}; pb(r.vec(lens(r)), r.vec(lens(r)), i < 5 ? t[i] : uint32_t(r.below(20000) + 1), D / 2 + (i == 4 ? 0 : r.below(D)), "pbkdf2 with many iterations"); });
    cases(g("C06.blocks").c_str(), tier(2, 8), [&](rng& r, u64 i) { pb(r.vec(lens(r)), r.vec(r.below(30)), 1, i ? D * 258 + r.below(D) : D * 65537 + 3, "pbkdf2 with many blocks"); sample(strf("pbkdf2 %s %s more than 65536 blocks", ref::aname(A), be)); });
    // long parameters
    for (int part = 0; part < 2; part++) cases(g(part ? "C06.large" : "C05.large").c_str(), tier(6, 24), [&](rng& r, u64 i)
    {
        bytes v[3]; for (int j = 0; j < 3; j++) { v[j].resize(j == int(i % 3) || r.chance(4) ? 60000 + r.below(100000) : r.below(200)); r.fill(v[j].data(), v[j].size()); }
        if (part) { if (i % 3 < 2) pb(v[0], v[1], uint32_t(1 + r.below(3)), 1 + r.below(2 * D), "pbkdf2 with long parameters"); } else hk(v[0], v[1], v[2], 1 + r.below(3 * D), "hkdf with long parameters");
    });
    cases(g("C02.pbkdf").c_str(), tier(2000, 40000), [&](rng& r, u64 i)
    {
        size_t n = r.below((i % 8 ? 5 : 30) * D); auto ikm = r.vec(lens(r)), salt = r.vec(r.below(80)); auto it = uint32_t(1 + r.below(3)); auto parts = split(r, n); u64 sg = n; for (auto c : parts) sg = mix(sg ^ c);
        if (r.chance(3)) { parts.clear(); for (size_t p = 0; p < n;) { size_t c = std::min<size_t>(n - p, D * r.below(4) + (r.chance(2) ? r.below(3) : 0)); if (!c && r.chance(2)) c = 1; parts.push_back(c); p += c; } }
        current("%s pbkdf2 n=%zu parts=%zu it=%u", be, n, parts.size(), it); bytes o(n); mp::kdf::apie<P> h(ikm.data(), ikm.size(), salt.data(), salt.size(), it);
        size_t p = 0; for (auto c : parts) { auto got = h.derive(o.data() + p, c); if (got != c) fail("derive returned another size"); p += c; }
        check_eq(o, ref::pbkdf2(A, ikm.data(), ikm.size(), salt.data(), salt.size(), it, n), "pbkdf2 in pieces"); eval(sg, parts.size() > 1); count("pieces", parts.size());
    });
}
// Parameters longer than 2^32 bytes.
static void big()
{
    using H = typename prim::hash_of<A>::any; const size_t n0 = (size_t(1) << 32) + ring::unit + 77; static const char* names[] = {"ikm", "salt", "info"};
    for (int part = 0; part < 3; part++) cases((std::string("C05.big.") + names[part] + "." + ref::aname(A)).c_str(), part == 2 ? 1 : 2, [&](rng& r, u64 i)
    {
        const size_t n = i ? (size_t(1) << 32) + r.below(65) : n0; ring l(n, false); l.fill(r); bytes s[3] = {r.vec(20), r.vec(13), r.vec(7)}; const u8* p[3]; size_t z[3]; for (int i = 0; i < 3; i++) { p[i] = i == part ? l.p : s[i].data(); z[i] = i == part ? n : s[i].size(); }
        current("hkdf with %s of %zu bytes", names[part], n); u8 o[20]; auto got = mp::kdf::derive<prim::hkdf<H>>(p[0], z[0], p[1], z[1], p[2], z[2], o, 20); auto want = ref::hkdf(A, p[0], z[0], p[1], z[1], p[2], z[2], 20);
        check_eq(o, got, want.data(), 20, "hkdf with a parameter of more than 2^32 bytes"); eval(sigs({u64(part), i})); count("bytes_in_long_inputs", n);
    });
    for (int part = 0; part < 2; part++) cases((std::string("C06.big.") + names[part] + "." + ref::aname(A)).c_str(), part == 2 ? 1 : 2, [&](rng& r, u64 i)
    {
        const size_t n = i ? (size_t(1) << 32) + r.below(65) : n0; ring l(n, false); l.fill(r); bytes s[2] = {r.vec(20), r.vec(13)}; const u8* p[2]; size_t z[2]; for (int i = 0; i < 2; i++) { p[i] = i == part ? l.p : s[i].data(); z[i] = i == part ? n : s[i].size(); }
        current("pbkdf2 with %s of %zu bytes", names[part], n); u8 o[20]; auto got = mp::kdf::derive<prim::pbkdf<H>>(p[0], z[0], p[1], z[1], 2, o, 20); auto want = ref::pbkdf2(A, p[0], z[0], p[1], z[1], 2, 20);
        check_eq(o, got, want.data(), 20, "pbkdf2 with a parameter of more than 2^32 bytes"); eval(sigs({u64(part), i})); count("bytes_in_long_inputs", n);
    });
}

int main()
{
    init();
    if (getenv("BIG")) { no_hang_timer(); big(); return finish(); }
    prim::hash_backends<A>([&](const char* n, auto t) { run<typename decltype(t)::type>(n); });
    return finish();
}
