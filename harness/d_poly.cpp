// C04 and C02 for Poly1305. POLY_VECTORS: file of "key message tag" lines made by the runner with exact integers.
#include "prim.h"
#include "ring.h"
#include <fstream>
#include <sstream>
using namespace vh;
static bytes unhex(const std::string& s) { bytes o; if (s == "-") return o; ref::b16d(reinterpret_cast<const u8*>(s.data()), s.size(), o); return o; }

template<class M> void run(const char* be)
{
    auto g = [&](const char* n) { return std::string(n) + ".poly." + be; };
    auto check = [&](const bytes& k, const bytes& m, const bytes& want, const char* what)
    {
        current("%s klen=%zu mlen=%zu k=%s m=%s", be, k.size(), m.size(), hex(k).c_str(), hex(m, 200).c_str());
        u8 d[16]; auto got = mp::mac::digest<M>(k.data(), k.size(), m.data(), m.size(), d);
        check_eq(d, got, want.data(), want.size(), what); eval(sigs({k.size(), m.size(), sig_of(want.data(), want.size())}));
    };
    auto key = [](rng& r)
    {
        bytes k(32); r.fill(k.data(), 32);
        switch (r.below(5)) { case 0: memset(k.data(), 255, 16); break; case 1: memset(k.data(), 0, 16); k[r.below(16)] = u8(r.next()); break; case 2: r.data(k.data(), 32); break; case 3: memset(k.data() + 16, 255, 16); break; }
        return k;
    };
    auto msg = [](rng& r, size_t n)
    {
        bytes m(n); static const u8 t[] = {0xff, 0x00, 0xfe, 0xfb, 0x01, 0x80};
        if (r.chance(3)) { for (size_t i = 0; i < n; i += 4) { u8 c = t[r.below(6)]; for (size_t j = i; j < n && j < i + 4; j++) m[j] = r.chance(12) ? u8(r.next()) : c; } } else r.data(m.data(), n);
        return m;
    };
    cases(g("C04.len").c_str(), 200, [&](rng& r, u64 n) { for (unsigned i = 0; i < tier(60, 1500); i++) { auto k = key(r); auto m = msg(r, n); check(k, m, ref::poly1305(k.data(), m.data(), m.size()), "tag"); } });
    cases(g("C04.rand").c_str(), tier(40000, 2000000), [&](rng& r, u64 i) { auto k = key(r); auto m = msg(r, r.len(i % 64 ? 100 : 5000)); check(k, m, ref::poly1305(k.data(), m.data(), m.size()), "tag"); });
    cases(g("C04.key").c_str(), 90, [&](rng& r, u64 n)
    {
        for (unsigned i = 0; i < tier(40, 400); i++)
        {
            auto k = r.vec(n); auto m = msg(r, r.len(100)); bytes f(32, 0); for (size_t j = 0; j < n && j < 32; j++) f[j] = k[j];
            check(k, m, ref::poly1305(f.data(), m.data(), m.size()), "tag under short or long key");
            // again on an object that held another key before
            mp::mac::apie<M> h; auto k0 = r.vec(64); h.initialize(k0.data(), k0.size()); h.update(m); h.initialize(k.data(), k.size()); h.update(m); u8 d[16]; auto c = h.digest(d);
            auto w = ref::poly1305(f.data(), m.data(), m.size()); check_eq(d, c, w.data(), w.size(), "tag under short or long key after another"); eval(sig_of(w.data(), 16));
        }
    });
    if (auto p = getenv("POLY_VECTORS"))
    {
        std::ifstream in(p); std::vector<std::array<std::string, 3>> v; std::string a, b, c; while (in >> a >> b >> c) v.push_back({a, b, c});
        if (v.size() < 100) { fprintf(stderr, "no vectors\n"); exit(2); }
        cases(g("C04.edge").c_str(), v.size(), [&](rng&, u64 i) { check(unhex(v[i][0]), unhex(v[i][1]), unhex(v[i][2]), "tag at an arithmetic edge"); if (i % 400 == 0) sample("poly edge key=" + v[i][0] + " msg=" + v[i][1]); });
    }
    for (int part = 0; part < 2; part++) cases(g(part ? "C02.large" : "C04.large").c_str(), tier(11, 15), [&](rng& r, u64 i)
    {
        auto k = key(r); auto m = msg(r, (size_t(16) << (9 + i)) + r.below(100)); size_t n = m.size(), c = part ? r.chance(2) ? r.below(n) : r.below(40) : n;
        current("%s len=%zu first=%zu k=%s", be, n, c, hex(k).c_str()); mp::mac::apie<M> h(k.data(), k.size()); h.update(m.data(), c); beat(); h.update(m.data() + c, n - c);
        u8 d[16]; auto got = h.digest(d); auto want = ref::poly1305(k.data(), m.data(), n); check_eq(d, got, want.data(), want.size(), part ? "large message in pieces" : "large message"); eval(sigs({n, c}), true);
    });
    cases(g("C02.two").c_str(), 80, [&](rng& r, u64 n)
    {
        auto k = key(r); auto m = msg(r, n); auto want = ref::poly1305(k.data(), m.data(), m.size());
        for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b++)
        {
            current("len=%zu splits=%zu,%zu", size_t(n), a, b); mp::mac::apie<M> h(k.data(), k.size()); h.update(m.data(), a); h.update(m.data() + a, b - a); h.update(m.data() + b, n - b);
            u8 d[16]; auto got = h.digest(d); check_eq(d, got, want.data(), want.size(), "three way split"); eval(sigs({n, a, b}));
        }
    });
    cases(g("C02.many").c_str(), tier(4000, 60000), [&](rng& r, u64)
    {
        auto k = key(r); auto m = msg(r, r.len(1000)); auto parts = split(r, m.size()); u64 sg = m.size(); for (auto c : parts) sg = mix(sg ^ c);
        current("len=%zu parts=%zu", m.size(), parts.size()); mp::mac::apie<M> h(k.data(), k.size()); size_t p = 0; for (auto c : parts) { h.update(m.data() + p, c); p += c; }
        u8 d[16]; auto got = h.digest(d); auto want = ref::poly1305(k.data(), m.data(), m.size()); check_eq(d, got, want.data(), want.size(), "many way split"); eval(sg, parts.size() > 1); count("pieces", parts.size());
    });
}
// A message longer than 2^32 bytes in one call.
static void big()
{
    cases("C04.big.msg", 2, [&](rng& r, u64 i)
    {
        const size_t n = (size_t(1) << 32) + ring::unit * i + 77 * i; ring l(n, false); l.fill(r); auto k = r.vec(32); current("message of %zu bytes", n);
        auto want = ref::poly1305(k.data(), l.p, n); u8 d[16]; auto got = mp::mac::digest<mp::mac::poly_1305<>>(k.data(), 32, l.p, n, d); check_eq(d, got, want.data(), want.size(), "tag of a message of more than 2^32 bytes"); eval(n); count("bytes_in_long_inputs", n);
    });
}
int main() { init(); if (getenv("BIG")) { no_hang_timer(); big(); return finish(); } run<mp::mac::poly_1305<>>("any"); run<mp::mac_poly_1305_sw>("sw"); return finish(); }
