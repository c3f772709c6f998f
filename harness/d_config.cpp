// C26: one workload over the whole library; every configuration must build it, agree with the reference and write the same transcript (VH_TR).
#include "prim.h"
#include <milo/literal.h>
#include <milo/def.h>
#include <milo/option.h>
#include <milo/primitive/hash/test.h>
#include <milo/primitive/mac/test.h>
#include <milo/primitive/kdf/test.h>
#include <milo/primitive/cipher/test.h>
#include <milo/primitive/aead/test.h>
#include <milo/primitive/codec/test.h>
#include <functional>
using namespace vh;
static FILE* TR;
struct rec
{
    u64 h = 0xcbf29ce484222325ull; std::string name; explicit rec(std::string n) : name(std::move(n)) {}
    void b(u8 x) { h = (h ^ x) * 0x100000001b3ull; }
    template<class P> void put(const P* p, size_t n) { for (size_t i = 0; i < n; i++) b(u8(p[i])); num(n); }
    template<class C> void all(const C& c) { put(c.data(), c.size()); }
    void num(u64 x) { for (int i = 0; i < 8; i++) b(u8(x >> (8 * i))); }
    void err(const milo::error& e) { num(u64(milo::error::code(e))); }
    template<class F> void thrown(F&& f) { try { f(); b(0); } catch (const milo::error& e) { err(e); } catch (...) { b(0xfe); } }
    ~rec() { if (TR) fprintf(TR, "%s %016llx\n", name.c_str(), (unsigned long long)h); count("results_recorded"); eval(sigs({h, sig_of(name.data(), name.size())})); }
};
struct own { using value_type = char; char* p = nullptr; size_t n = 0; own() = default; own(const own& o) : p(o.n ? new char[o.n] : nullptr), n(o.n) { std::copy(o.p, o.p + o.n, p); } own& operator=(const own&) = delete; ~own() { delete[] p; } char* data() noexcept { return p; } const char* data() const noexcept { return p; } size_t size() const noexcept { return n; } void reserve(size_t) {} void resize(size_t m, char v) { char* q = new char[m]; std::fill(q, q + m, v); std::copy(p, p + std::min(n, m), q); delete[] p; p = q; n = m; } };
template<class T> static T as(const bytes& m) { T t; t.reserve(m.size()); t.resize(m.size(), typename T::value_type()); std::copy(m.begin(), m.end(), t.data()); return t; }
#define TYPES(F) F(std::string) F(std::vector<signed char>) F(std::vector<unsigned char>) F(own)

template<class H> static void hash_work(ref::alg a, const char* be)
{
    std::string nm = std::string("hash.") + ref::aname(a) + "." + be;
    cases(("C26." + nm).c_str(), tier(400, 4000), [&](rng& r, u64 c)
    {
        bytes m = r.vec(c < 24 ? c * 11 : r.len(1500)), w = ref::hash(a, m.data(), m.size()); current("%s len=%zu m=%s", nm.c_str(), m.size(), hex(m).c_str()); rec o(strf("%s.%llu", nm.c_str(), (unsigned long long)c)); u8 d[64]; size_t n = mp::hash::digest<H>(m.data(), m.size(), d); check_eq(d, n, w.data(), w.size(), "digest"); o.put(d, n);
        mp::hash::apie<H> x; size_t p = 0; for (auto k : split(r, m.size())) { x.update(m.data() + p, k); p += k; if (r.chance(5)) { auto y = x; o.all(y.digest()); } } auto e = x.digest(); check_eq(e.data(), e.size(), w.data(), w.size(), "digest of parts"); o.all(x.digest(r.below(80)));
        #define T_(T) { T t = as<T>(m); auto z = mp::hash::digest<H, T>(t, w.size()); check_eq(reinterpret_cast<const u8*>(z.data()), z.size(), w.data(), w.size(), "digest of a container"); o.all(z); std::array<typename T::value_type, 5> s; o.num(mp::hash::digest<H>(t, s)); o.all(s); }
        TYPES(T_)
        #undef T_
        mp::hash::apie<H> i; i.update(m.data(), m.size()); i.initialize(); o.all(i.digest());
    });
}
template<class M> static void mac_work(const std::string& nm, const std::function<bytes(const bytes&, const bytes&)>& ref, size_t fixed)
{
    cases(("C26." + nm).c_str(), tier(200, 2000), [&](rng& r, u64 c)
    {
        bytes k = r.vec(fixed ? fixed : r.below(300)), m = r.vec(r.len(700)), w = ref(k, m); current("%s key=%s m=%s", nm.c_str(), hex(k).c_str(), hex(m).c_str()); rec o(strf("%s.%llu", nm.c_str(), (unsigned long long)c)); u8 d[64]; size_t n = mp::mac::digest<M>(k.data(), k.size(), m.data(), m.size(), d); check_eq(d, n, w.data(), w.size(), "mac"); o.put(d, n);
        mp::mac::apie<M> x(k); size_t p = 0; for (auto j : split(r, m.size())) { x.update(m.data() + p, j); p += j; if (r.chance(5)) { auto y = x; o.all(y.digest()); } } o.all(x.digest(r.below(80))); auto e = x.digest(); check_eq(e.data(), e.size(), w.data(), w.size(), "mac of parts"); x.initialize(m.data(), std::min<size_t>(m.size(), fixed ? fixed : 1000)); o.all(x.digest());
        #define T_(T) { T t = as<T>(m); auto z = mp::mac::digest<M, T>(as<T>(k), t, w.size()); check_eq(reinterpret_cast<const u8*>(z.data()), z.size(), w.data(), w.size(), "mac of a container"); }
        TYPES(T_)
        #undef T_
    });
}
template<class K, bool HK> static void kdf_work(ref::alg a, const char* be)
{
    std::string nm = std::string(HK ? "hkdf." : "pbkdf2.") + ref::aname(a) + "." + be;
    cases(("C26." + nm).c_str(), tier(60, 400), [&](rng& r, u64 c)
    {
        bytes i = r.vec(r.below(200)), s = r.vec(r.below(200)), f = r.vec(r.below(60)); size_t n = r.below(200); unsigned it = unsigned(1 + r.below(3)); bytes w = HK ? ref::hkdf(a, i.data(), i.size(), s.data(), s.size(), f.data(), f.size(), n) : ref::pbkdf2(a, i.data(), i.size(), s.data(), s.size(), it, n);
        current("%s ikm=%s salt=%s info=%s it=%u n=%zu", nm.c_str(), hex(i).c_str(), hex(s).c_str(), hex(f).c_str(), it, n); rec o(strf("%s.%llu", nm.c_str(), (unsigned long long)c)); bytes d(n + 1);
        auto mk = [&] { if constexpr (HK) return mp::kdf::apie<K>(i.data(), i.size(), s.data(), s.size(), f.data(), f.size()); else return mp::kdf::apie<K>(i.data(), i.size(), s.data(), s.size(), it); }; auto x = mk();
        size_t p = 0; for (auto k : split(r, n)) { x.derive(d.data() + p, k); p += k; } check_eq(d.data(), n, w.data(), w.size(), "derived in parts"); o.put(d.data(), n);
        if constexpr (HK) { o.all(mp::kdf::derive<K>(as<std::string>(i), as<own>(s), f, n)); auto e = mp::kdf::derive<K>(i, s, f, n); check_eq(e.data(), e.size(), w.data(), w.size(), "derived"); } else { o.all(mp::kdf::derive<K>(as<std::string>(i), as<own>(s), it, n)); auto e = mp::kdf::derive<K>(i, s, it, n); check_eq(e.data(), e.size(), w.data(), w.size(), "derived"); }
    });
}
template<class C> static void cipher_work(const char* be)
{
    std::string nm = std::string("cipher.") + be;
    cases(("C26." + nm).c_str(), tier(600, 5000), [&](rng& r, u64 c)
    {
        bytes k = r.vec(32), v = r.vec(16), m = r.vec(r.len(2000)), w(m.size()), d(m.size() + 1); if (r.chance(4)) v[0] = v[1] = v[2] = v[3] = 0xff; ref::chacha_xor(k.data(), ref::u32(v[0] | v[1] << 8 | v[2] << 16) | ref::u32(v[3]) << 24, v.data() + 4, m.data(), m.size(), w.data());
        current("%s key=%s iv=%s m=%s", nm.c_str(), hex(k).c_str(), hex(v).c_str(), hex(m).c_str()); rec o(strf("%s.%llu", nm.c_str(), (unsigned long long)c));
        mp::cipher::apie<C> x(k, v); size_t p = 0; for (auto j : split(r, m.size())) { if (r.chance(2)) x.encrypt(m.data() + p, j, d.data() + p); else x.decrypt(m.data() + p, j, d.data() + p); p += j; if (r.chance(6)) { auto y = x; bytes z(50); y.encrypt(z.data(), 50, z.data()); o.all(z); } }
        check_eq(d.data(), m.size(), w.data(), w.size(), "text"); o.put(d.data(), m.size()); mp::cipher::encrypt<C>(k.data(), 32, v.data(), 16, d.data(), m.size(), d.data()); check_eq(d.data(), m.size(), m.data(), m.size(), "text in place");
        #define T_(T) { auto z = mp::cipher::encrypt<C, T>(as<T>(k), as<T>(v), as<T>(m)); check_eq(reinterpret_cast<const u8*>(z.data()), z.size(), w.data(), w.size(), "text of a container"); }
        TYPES(T_)
        #undef T_
    });
}
template<class C> static void aead_work(const char* be)
{
    std::string nm = std::string("aead.") + be;
    cases(("C26." + nm).c_str(), tier(400, 4000), [&](rng& r, u64 c)
    {
        bytes k = r.vec(32), v = r.vec(12), a = r.vec(r.below(70)), m = r.vec(r.len(900)), d(m.size() + 1); auto w = ref::aead_seal(k.data(), v.data(), a.data(), a.size(), m.data(), m.size()); current("%s key=%s iv=%s aad=%s m=%s", nm.c_str(), hex(k).c_str(), hex(v).c_str(), hex(a).c_str(), hex(m).c_str()); rec o(strf("%s.%llu", nm.c_str(), (unsigned long long)c));
        u8 t[16]; mp::aead::encrypt<C>(k.data(), 32, v.data(), 12, a.data(), a.size(), m.data(), m.size(), d.data(), t); check_eq(d.data(), m.size(), w.ct.data(), w.ct.size(), "text"); check_eq(t, 16, w.tag.data(), w.tag.size(), "tag"); o.put(d.data(), m.size()); o.put(t, 16);
        mp::aead::apie<C> x(k, v); x.aad(a); size_t p = 0; for (auto j : split(r, m.size())) { x.encrypt(m.data() + p, j, d.data() + p); p += j; if (r.chance(6)) { auto y = x; o.all(y.digest()); } } check_eq(d.data(), m.size(), w.ct.data(), w.ct.size(), "text of parts"); auto dg = x.digest(); check_eq(dg.data(), dg.size(), w.tag.data(), w.tag.size(), "tag of parts");
        milo::error e(milo::error::size); bytes b(m.size()); mp::aead::decrypt<C>(k, v, a, w.ct, w.tag, b, e); if (e) fail("a good tag is refused"); o.err(e); o.all(b); if (b != m) fail("decrypted to something else");
        bytes bad = w.tag; bad[r.below(16)] ^= u8(1 << r.below(8)); mp::aead::decrypt<C>(k, v, a, w.ct, bad, b, e); if (!e) fail("a bad tag is accepted"); o.err(e); bool th = false; o.thrown([&] { try { (void)mp::aead::decrypt<C>(k, v, a, w.ct, bad); } catch (...) { th = true; throw; } }); if (!th) fail("a bad tag is accepted without an exception"); x.verify(w.tag.data(), r.below(16), e); o.err(e);
        #define T_(T) { auto [ct, tg] = mp::aead::encrypt<C, T>(as<T>(k), as<T>(v), as<T>(a), as<T>(m)); check_eq(reinterpret_cast<const u8*>(ct.data()), ct.size(), w.ct.data(), w.ct.size(), "text of a container"); auto pt = mp::aead::decrypt<C, T>(as<T>(k), as<T>(v), as<T>(a), ct, tg); o.all(pt); o.all(tg); }
        TYPES(T_)
        #undef T_
    });
}
template<class C, bool SIXTEEN> static void codec_work(const char* nm)
{
    using W = mp::codec::apie<C>;
    cases((std::string("C26.") + nm).c_str(), tier(1500, 15000), [&](rng& r, u64 c)
    {
        bytes m = r.vec(c < 40 ? c : r.len(400)); auto s = SIXTEEN ? ref::b16e(m.data(), m.size()) : ref::b64e(m.data(), m.size()); current("%s m=%s", nm, hex(m).c_str()); rec o(strf("%s.%llu", nm, (unsigned long long)c)); bytes d(s.size() + 8);
        size_t n = mp::codec::encode<C>(m.data(), m.size(), d.data()); check_eq(d.data(), n, reinterpret_cast<const u8*>(s.data()), s.size(), "text"); o.num(W::encode_size(m.data(), m.size())); o.num(W::decode_size(s.data(), s.size())); milo::error e; n = mp::codec::decode<C>(s.data(), s.size(), d.data(), e); if (e) fail("a good text is refused"); check_eq(d.data(), n, m.data(), m.size(), "bytes");
        #define T_(T) { T t = as<T>(m); auto z = W::template encode<T>(t); o.all(z); auto y = W::template decode<T>(z); check_eq(reinterpret_cast<const u8*>(y.data()), y.size(), m.data(), m.size(), "bytes of a container"); }
        TYPES(T_)
        #undef T_
        for (int i = 0; i < 6; i++)
        {
            auto x = s; if (!x.empty() && r.below(4)) x[r.below(x.size())] = char(r.chance(2) ? r.next() : u64("=-_ +/gG@`[{\x80\xff\0"[r.below(15)])); if (r.chance(3) && !x.empty()) x.resize(r.below(x.size())); if (r.chance(4)) x += char('A' + r.below(4));
            bytes q, z(x.size() + 4); bool canon = true, good = SIXTEEN ? ref::b16d(reinterpret_cast<const u8*>(x.data()), x.size(), q) : ref::b64d(reinterpret_cast<const u8*>(x.data()), x.size(), q, canon); current("%s text=%s", nm, hex(reinterpret_cast<const u8*>(x.data()), x.size()).c_str());
            n = mp::codec::decode<C>(x.data(), x.size(), z.data(), e); o.err(e); if (!e) { o.num(n); o.put(z.data(), n); } if (canon && bool(e) == good) fail(good ? "a good text is refused" : "a bad text is accepted"); o.thrown([&] { o.all(mp::codec::decode<C>(x)); });
        }
    });
}
// Constants: the compiler in this configuration computes them.
template<class T, size_t N> static constexpr std::array<T, N> pattern(unsigned s) { std::array<T, N> a{}; for (auto& x : a) { s = s * 1664525u + 1013904223u; x = T(s >> 24); } return a; }
static constexpr auto K_HASH = [] { auto m = pattern<char, 130>(1); return mp::hash::digest<mp::hash::sha_2_256<>>(m); }();
static constexpr auto K_HASH5 = [] { auto m = pattern<signed char, 130>(1); return mp::hash::digest<mp::hash::sha_2_512<>>(m); }();
static constexpr auto K_MAC = [] { return mp::mac::digest<prim::hmac<mp::hash::sha_1_160<>>>(pattern<unsigned char, 70>(2), pattern<char, 90>(3)); }();
static constexpr auto K_POLY = [] { return mp::mac::digest<prim::poly>(pattern<unsigned char, 32>(2), pattern<char, 90>(3)); }();
static constexpr auto K_CT = [] { auto k = pattern<char, 32>(4), v = pattern<char, 32>(5); auto m = pattern<char, 150>(6); std::array<char, 150> o{}; mp::cipher::encrypt<mp::cipher::chacha_20<>>(k.data(), 32, v.data(), 16, m.data(), 150, o.data()); return o; }();
static void constants()
{
    cases("C26.constants", 1, [&](rng&, u64)
    {
        auto vis = [](const auto& c) { return bytes(c.begin(), c.end()); }; auto m = vis(pattern<unsigned char, 130>(1)), k = vis(pattern<unsigned char, 70>(2)), p = vis(pattern<char, 90>(3)), k4 = vis(pattern<char, 32>(4)), v5 = vis(pattern<char, 32>(5)), m6 = vis(pattern<char, 150>(6)), k2 = vis(pattern<char, 32>(2));
        auto w = ref::hash(ref::SHA256, m.data(), m.size()); check_eq(K_HASH.data(), K_HASH.size(), w.data(), w.size(), "constant sha256"); w = ref::hash(ref::SHA512, m.data(), m.size()); check_eq(K_HASH5.data(), K_HASH5.size(), w.data(), w.size(), "constant sha512"); w = ref::hmac(ref::SHA1, k.data(), k.size(), p.data(), p.size()); check_eq(K_MAC.data(), K_MAC.size(), w.data(), w.size(), "constant hmac"); w = ref::poly1305(k2.data(), p.data(), p.size()); check_eq(K_POLY.data(), K_POLY.size(), w.data(), w.size(), "constant poly");
        w.resize(150); ref::chacha_xor(k4.data(), ref::u32(v5[0] | v5[1] << 8 | v5[2] << 16) | ref::u32(v5[3]) << 24, v5.data() + 4, m6.data(), 150, w.data()); check_eq(reinterpret_cast<const u8*>(K_CT.data()), 150, w.data(), 150, "constant cipher");
        rec o("constants"); o.all(K_HASH); o.all(K_HASH5); o.all(K_MAC); o.all(K_POLY); o.all(K_CT);
        using namespace milo::literal; rec l("literals"); l.all("00fF7f"_base_16); l.all("AP9/"_base_64); l.all("\x80""b"_b); l.all("\x80""b"_bv); l.all("\x80""b"_c); l.all("\x80""b"_cv); rec d("definitions"); std::string n = MILO_NAME, s = MILO_VERSION_SEMANTIC; d.all(n); d.all(s); d.num(MILO_VERSION_INTEGRAL); d.num(MILO_VERSION_MAJOR); d.num(MILO_VERSION_MINOR); d.num(MILO_VERSION_PATCH);
        rec t("sizes"); t.num(mp::hash::sha_2_384<>::digest_size); t.num(prim::poly::key_size); t.num(prim::poly::digest_size); t.num(prim::hmac<mp::hash::sha_2_512<>>::digest_size);
    });
}
int main()
{
    init(); if (const char* p = getenv("VH_TR")) TR = fopen(p, "w");
    #define W_H(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { if (be[0] == 'n') return; hash_work<typename decltype(t)::type>(ref::N, be); });
    #define W_M(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { if (be[0] == 'n') return; mac_work<prim::hmac<typename decltype(t)::type>>(std::string("hmac.") + ref::aname(ref::N) + "." + be, [](const bytes& k, const bytes& m) { return ref::hmac(ref::N, k.data(), k.size(), m.data(), m.size()); }, 0); });
    #define W_K(N) { using H = typename prim::hash_of<ref::N>::any; kdf_work<prim::hkdf<H>, true>(ref::N, "any"); kdf_work<prim::pbkdf<H>, false>(ref::N, "any"); }
    constants();
    #if PART == 0
    FOR_ALG(W_H)
    #elif PART == 1
    FOR_ALG(W_M) mac_work<prim::poly>("poly", [](const bytes& k, const bytes& m) { return ref::poly1305(k.data(), m.data(), m.size()); }, 32);
    #elif PART == 2
    FOR_ALG(W_K)
    #else
    prim::cipher_backends([&](const char* be, auto t) { if (be[1] == 's' || be[1] == 'v') return; cipher_work<typename decltype(t)::type>(be); });
    prim::aead_backends([&](const char* be, auto t) { aead_work<typename decltype(t)::type>(be); });
    codec_work<prim::b16, true>("base16"); codec_work<prim::b64, false>("base64");
    #endif
    if (TR) fclose(TR);
    return finish();
}
