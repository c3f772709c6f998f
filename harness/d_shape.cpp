// C17: every documented call shape, with every kind of container and byte type, agrees with the reference.
#include "kinds.h"
#include <milo/literal.h>
using namespace vh;
using namespace kd;
#ifndef PART
#define PART 0
#endif
static void same(const bytes& got, const bytes& want, const char* what) { check_eq(got, want, what); }
#define CASE(NAME, N) cases(strf("C17.%s", NAME).c_str(), (N) * 20, [&](rng& r, [[maybe_unused]] u64 i)
constexpr size_t MN = 37, KN = 45;

// One input (three byte types, every kind) and one output of a digest like operation, by functions f*.
#if PART == 0 || PART == 1
template<ref::alg A, class H> void hash_shapes()
{
    constexpr size_t D = H::digest_size; const char* nm = ref::aname(A); using W = mp::hash::apie<H>;
    CASE(strf("hash.%s.ptr", nm).c_str(), tier(6, 100))
    {
        bytes m = r.vec(r.len(400)), want = ref::hash(A, m.data(), m.size());
        each_byte([&](auto a) { each_byte([&](auto b)
        {
            using TA = decltype(a); using TB = decltype(b); auto x = as<TA>(m); std::vector<TB> o(D); current("hash pointers");
            auto n = mp::hash::digest<H>(x.data(), x.size(), o.data()); same(get(o), want, "digest(ptr,n,ptr)"); if (n != D) fail("size"); o.assign(D, TB()); n = mp::hash::digest<H>(x.data(), x.size(), o.data(), D); same(get(o), want, "digest(ptr,n,ptr,n)");
            H h; h.initialize(); h.update(x.data(), x.size()); h.finalize(); o.assign(D, TB()); h.digest(o.data()); same(get(o), want, "raw"); o.assign(D, TB()); h.digest(o.data(), D); same(get(o), want, "raw with size");
            W w; w.update(x.data(), x.size()); o.assign(D, TB()); w.digest(o.data()); same(get(o), want, "apie"); w.initialize(); w.update(x.data(), x.size()); o.assign(D, TB()); w.digest(o.data(), D); same(get(o), want, "apie with size");
            eval(sigs({m.size(), sizeof(a), sig_of(want.data(), D)}));
        }); });
    });
    CASE(strf("hash.%s.in", nm).c_str(), tier(6, 100))
    {
        each<0, INS>([&](auto k)
        {
            using T = typename in_kind<k, MN>::type; bytes m = r.vec(MN), want = ref::hash(A, m.data(), MN); const hold<T> x(m); current("hash input kind %d", int(k)); static_assert(milo::meta::bytes<T>);
            same(get(mp::hash::digest<H>(x.v)), want, "digest(in)"); same(get(mp::hash::digest<H>(x.v, D)), want, "digest(in,n)"); bytes o; mp::hash::digest<H>(x.v, o); same(o, want, "digest(in,out)"); o.clear(); mp::hash::digest<H>(x.v, o, D); same(o, want, "digest(in,out,n)");
            W w; w.update(x.v); same(get(w.digest()), want, "apie"); same(get(w.digest(D)), want, "apie n"); eval(sigs({u64(k), 1}));
        });
    });
    CASE(strf("hash.%s.out", nm).c_str(), tier(6, 100))
    {
        bytes m = r.vec(r.len(300)), want = ref::hash(A, m.data(), m.size());
        each<0, OUTS>([&](auto k)
        {
            using T = typename out_kind<k, D>::type; static_assert(milo::meta::bytes<T>); bytes init = r.vec(resizes<T> ? r.below(80) : D); current("hash output kind %d", int(k));
            { hold<T> o(init); auto n = mp::hash::digest<H>(m, o.v); same(o.get(), want, "digest(in,out)"); if (n != D) fail("size"); }
            { hold<T> o(init); mp::hash::digest<H>(m, o.v, D); same(o.get(), want, "digest(in,out,n)"); }
            { hold<T> o(init); W w; w.update(m); w.digest(o.v); same(o.get(), want, "apie out"); hold<T> p(init); w.digest(p.v, D); same(p.get(), want, "apie out n"); }
            if constexpr (k < DYNS) { same(get(mp::hash::digest<H, T>(m, D)), want, "digest<dyn>(in,n)"); W w; w.update(m); same(get(w.template digest<T>(D)), want, "apie<dyn>(n)"); }
            else if constexpr (k < DYNS + STATS) { same(get(mp::hash::digest<H, T>(m)), want, "digest<static>(in)"); W w; w.update(m); same(get(w.template digest<T>()), want, "apie<static>()"); }
            eval(sigs({u64(k), 2}));
        });
    });
}
template<class MAC, class REF> void mac_shapes(const char* nm, REF&& ref_mac)
{
    constexpr size_t D = MAC::digest_size; using W = mp::mac::apie<MAC>; constexpr size_t KS = MAC::key_size ? MAC::key_size : KN;
    CASE(strf("mac.%s.ptr", nm).c_str(), tier(4, 60))
    {
        bytes k = r.vec(KS), m = r.vec(r.len(300)), want = ref_mac(k, m);
        each_byte([&](auto a) { each_byte([&](auto b) { each_byte([&](auto c)
        {
            using TA = decltype(a); using TB = decltype(b); using TC = decltype(c); auto x = as<TA>(k); auto y = as<TB>(m); std::vector<TC> o(D); current("mac pointers");
            mp::mac::digest<MAC>(x.data(), x.size(), y.data(), y.size(), o.data()); same(get(o), want, "digest"); o.assign(D, TC()); mp::mac::digest<MAC>(x.data(), x.size(), y.data(), y.size(), o.data(), D); same(get(o), want, "digest n");
            MAC h; h.initialize(x.data(), x.size()); h.update(y.data(), y.size()); h.finalize(); o.assign(D, TC()); h.digest(o.data()); same(get(o), want, "raw"); h.digest(o.data(), D);
            W w(x.data(), x.size()); w.update(y.data(), y.size()); o.assign(D, TC()); w.digest(o.data()); same(get(o), want, "apie"); W v; v.initialize(x.data(), x.size()); v.update(y.data(), y.size()); o.assign(D, TC()); v.digest(o.data(), D); same(get(o), want, "apie init");
            eval(sigs({m.size(), 3}));
        }); }); });
    });
    CASE(strf("mac.%s.in", nm).c_str(), tier(4, 60))
    {
        each<0, INS>([&](auto k)
        {
            // key kind and message kind move through all kinds at different speeds
            using TK = typename in_kind<k, KS>::type; using TM = typename in_kind<(k * 7 + 3) % INS, MN>::type; bytes kb = r.vec(KS), m = r.vec(MN), want = ref_mac(kb, m); const hold<TK> x(kb); const hold<TM> y(m); current("mac kinds %d", int(k));
            same(get(mp::mac::digest<MAC>(x.v, y.v)), want, "digest(k,m)"); same(get(mp::mac::digest<MAC>(x.v, y.v, D)), want, "digest(k,m,n)"); bytes o; mp::mac::digest<MAC>(x.v, y.v, o); same(o, want, "digest(k,m,out)"); o.clear(); mp::mac::digest<MAC>(x.v, y.v, o, D); same(o, want, "digest(k,m,out,n)");
            W w(x.v); w.update(y.v); same(get(w.digest()), want, "apie"); w.initialize(x.v); w.update(y.v); same(get(w.digest(D)), want, "apie init"); eval(sigs({u64(k), 4}));
        });
    });
    CASE(strf("mac.%s.out", nm).c_str(), tier(4, 60))
    {
        bytes k = r.vec(KS), m = r.vec(r.len(300)), want = ref_mac(k, m);
        each<0, OUTS>([&](auto q)
        {
            using T = typename out_kind<q, D>::type; bytes init = r.vec(resizes<T> ? r.below(80) : D); current("mac output kind %d", int(q));
            { hold<T> o(init); auto n = mp::mac::digest<MAC>(k, m, o.v); same(o.get(), want, "out"); if (n != D) fail("size"); } { hold<T> o(init); mp::mac::digest<MAC>(k, m, o.v, D); same(o.get(), want, "out n"); }
            { hold<T> o(init); W w(k); w.update(m); w.digest(o.v); same(o.get(), want, "apie out"); hold<T> p(init); w.digest(p.v, D); same(p.get(), want, "apie out n"); }
            if constexpr (q < DYNS) { same(get(mp::mac::digest<MAC, T>(k, m, D)), want, "<dyn>(n)"); W w(k); w.update(m); same(get(w.template digest<T>(D)), want, "apie<dyn>(n)"); }
            else if constexpr (q < DYNS + STATS) { same(get(mp::mac::digest<MAC, T>(k, m)), want, "<static>"); W w(k); w.update(m); same(get(w.template digest<T>()), want, "apie<static>()"); }
            eval(sigs({u64(q), 5}));
        });
    });
}
#endif
#if PART == 2
template<class K, bool HK, ref::alg A> void kdf_shapes(const char* nm)
{
    constexpr size_t D = 50, IN = 33, SN = 21, FN = 14; using W = mp::kdf::apie<K>; constexpr unsigned IT = 3;
    auto refk = [](const bytes& a, const bytes& b, const bytes& c, size_t n) { return HK ? ref::hkdf(A, a.data(), a.size(), b.data(), b.size(), c.data(), c.size(), n) : ref::pbkdf2(A, a.data(), a.size(), b.data(), b.size(), IT, n); };
    // hkdf takes info where pbkdf2 takes the number of iterations
    CASE(strf("kdf.%s.ptr", nm).c_str(), tier(2, 30))
    {
        bytes a = r.vec(IN), b = r.vec(SN), c = r.vec(FN), want = refk(a, b, c, D);
        each_byte([&](auto ta) { each_byte([&](auto tb) { each_byte([&](auto tc) { each_byte([&](auto to)
        {
            using TO = decltype(to); auto x = as<decltype(ta)>(a); auto y = as<decltype(tb)>(b); auto z = as<decltype(tc)>(c); std::vector<TO> o(D); current("kdf pointers");
            if constexpr (HK)
            {
                mp::kdf::derive<K>(x.data(), IN, y.data(), SN, z.data(), FN, o.data(), D); same(get(o), want, "derive"); K k; k.initialize(x.data(), IN, y.data(), SN, z.data(), FN); o.assign(D, TO()); k.derive(o.data(), D); same(get(o), want, "raw");
                W w(x.data(), IN, y.data(), SN, z.data(), FN); o.assign(D, TO()); w.derive(o.data(), D); same(get(o), want, "apie"); W v; v.initialize(x.data(), IN, y.data(), SN, z.data(), FN); o.assign(D, TO()); v.derive(o.data(), D); same(get(o), want, "apie init");
            }
            else
            {
                mp::kdf::derive<K>(x.data(), IN, y.data(), SN, IT, o.data(), D); same(get(o), want, "derive"); K k; k.initialize(x.data(), IN, y.data(), SN, IT); o.assign(D, TO()); k.derive(o.data(), D); same(get(o), want, "raw");
                W w(x.data(), IN, y.data(), SN, IT); o.assign(D, TO()); w.derive(o.data(), D); same(get(o), want, "apie"); W v; v.initialize(x.data(), IN, y.data(), SN, IT); o.assign(D, TO()); v.derive(o.data(), D); same(get(o), want, "apie init");
            }
            eval(sigs({6, r.next()}));
        }); }); }); });
    });
    CASE(strf("kdf.%s.in", nm).c_str(), tier(2, 30))
    {
        each<0, INS>([&](auto k)
        {
            using TA = typename in_kind<k, IN>::type; using TB = typename in_kind<(k * 7 + 3) % INS, SN>::type; using TC = typename in_kind<(k * 11 + 8) % INS, FN>::type; bytes a = r.vec(IN), b = r.vec(SN), c = r.vec(FN), want = refk(a, b, c, D);
            const hold<TA> x(a); const hold<TB> y(b); const hold<TC> z(c); current("kdf kinds %d", int(k)); bytes o; using S = std::array<char, D>;
            if constexpr (HK)
            {
                same(get(mp::kdf::derive<K>(x.v, y.v, z.v, D)), want, "derive(n)"); same(get(mp::kdf::derive<K, S>(x.v, y.v, z.v)), want, "derive<static>"); mp::kdf::derive<K>(x.v, y.v, z.v, o, D); same(o, want, "derive(out,n)");
                W w(x.v, y.v, z.v); same(get(w.derive(D)), want, "apie"); w.initialize(x.v, y.v, z.v); same(get(w.template derive<S>()), want, "apie init");
            }
            else
            {
                same(get(mp::kdf::derive<K>(x.v, y.v, IT, D)), want, "derive(n)"); same(get(mp::kdf::derive<K, S>(x.v, y.v, IT)), want, "derive<static>"); mp::kdf::derive<K>(x.v, y.v, IT, o, D); same(o, want, "derive(out,n)");
                W w(x.v, y.v, IT); same(get(w.derive(D)), want, "apie"); w.initialize(x.v, y.v, IT); same(get(w.template derive<S>()), want, "apie init");
            }
            eval(sigs({u64(k), 7}));
        });
    });
    CASE(strf("kdf.%s.out", nm).c_str(), tier(2, 30))
    {
        bytes a = r.vec(IN), b = r.vec(SN), c = r.vec(FN), want = refk(a, b, c, 2 * D), w1(want.begin(), want.begin() + D), w2(want.begin() + D, want.end());
        each<0, OUTS>([&](auto q)
        {
            using T = typename out_kind<q, D>::type; bytes init = r.vec(resizes<T> ? r.below(80) : D); current("kdf output kind %d", int(q)); hold<T> o(init), p(init), s(init);
            if constexpr (HK) { auto n = mp::kdf::derive<K>(a, b, c, o.v, D); if (n != D) fail("size"); } else { auto n = mp::kdf::derive<K>(a, b, IT, o.v, D); if (n != D) fail("size"); }
            same(o.get(), w1, "derive(out,n)"); W w; if constexpr (HK) w.initialize(a, b, c); else w.initialize(a, b, IT); w.derive(p.v, D); same(p.get(), w1, "apie out"); w.derive(s.v, D); same(s.get(), w2, "apie out again");
            if constexpr (q < DYNS)
            {
                if constexpr (HK) { same(get(mp::kdf::derive<K, T>(a, b, c, D)), w1, "derive<dyn>(n)"); w.initialize(a, b, c); } else { same(get(mp::kdf::derive<K, T>(a, b, IT, D)), w1, "derive<dyn>(n)"); w.initialize(a, b, IT); }
                same(get(w.template derive<T>(D)), w1, "apie<dyn>(n)"); same(get(w.template derive<T>(D)), w2, "apie<dyn>(n) again");
            }
            else if constexpr (q < DYNS + STATS)
            {
                if constexpr (HK) { same(get(mp::kdf::derive<K, T>(a, b, c)), w1, "derive<static>"); w.initialize(a, b, c); } else { same(get(mp::kdf::derive<K, T>(a, b, IT)), w1, "derive<static>"); w.initialize(a, b, IT); }
                same(get(w.template derive<T>()), w1, "apie<static>()"); same(get(w.template derive<T>()), w2, "apie<static>() again");
            }
            eval(sigs({u64(q), 8}));
        });
    });
}
#endif
#if PART == 3
template<class C> void cipher_shapes(const char* be)
{
    using W = mp::cipher::apie<C>; constexpr size_t N = 75;
    auto refc = [](const bytes& k, const bytes& iv, const bytes& m) { bytes o(m.size()); ref::chacha_xor(k.data(), ref::u32(iv[0] | iv[1] << 8 | iv[2] << 16) | ref::u32(iv[3]) << 24, iv.data() + 4, m.data(), m.size(), o.data()); return o; };
    CASE(strf("cipher.%s.ptr", be).c_str(), tier(3, 40))
    {
        bytes k = r.vec(32), iv = r.vec(16), m = r.vec(N), want = refc(k, iv, m);
        each_byte([&](auto ta) { each_byte([&](auto tb) { each_byte([&](auto tc) { each_byte([&](auto to)
        {
            using TO = decltype(to); auto x = as<decltype(ta)>(k); auto y = as<decltype(tb)>(iv); auto z = as<decltype(tc)>(m); std::vector<TO> o(N); current("cipher pointers");
            mp::cipher::encrypt<C>(x.data(), 32, y.data(), 16, z.data(), N, o.data()); same(get(o), want, "encrypt"); o.assign(N, TO()); mp::cipher::decrypt<C>(x.data(), 32, y.data(), 16, z.data(), N, o.data()); same(get(o), want, "decrypt");
            C c; c.initialize(x.data(), 32, y.data(), 16); if (c.encrypt_size(z.data(), N) != N || c.decrypt_size(z.data(), N) != N) fail("size"); o.assign(N, TO()); c.encrypt(z.data(), N, o.data()); same(get(o), want, "raw"); c.initialize(x.data(), 32, y.data(), 16); o.assign(N, TO()); c.decrypt(z.data(), N, o.data()); same(get(o), want, "raw decrypt");
            W w(x.data(), 32, y.data(), 16); if (w.encrypt_size(z.data(), N) != N || w.decrypt_size(z.data(), N) != N) fail("size"); o.assign(N, TO()); w.encrypt(z.data(), N, o.data()); same(get(o), want, "apie"); w.initialize(x.data(), 32, y.data(), 16); o.assign(N, TO()); w.decrypt(z.data(), N, o.data()); same(get(o), want, "apie decrypt");
            eval(sigs({9, r.next()}));
        }); }); }); });
    });
    CASE(strf("cipher.%s.in", be).c_str(), tier(3, 40))
    {
        each<0, INS>([&](auto q)
        {
            using TA = typename in_kind<q, 32>::type; using TB = typename in_kind<(q * 7 + 3) % INS, 16>::type; using TC = typename in_kind<(q * 11 + 8) % INS, N>::type; bytes k = r.vec(32), iv = r.vec(16), m = r.vec(N), want = refc(k, iv, m);
            const hold<TA> x(k); const hold<TB> y(iv); const hold<TC> z(m); bytes o; current("cipher kinds %d", int(q));
            same(get(mp::cipher::encrypt<C>(x.v, y.v, z.v)), want, "encrypt"); same(get(mp::cipher::decrypt<C>(x.v, y.v, z.v)), want, "decrypt"); mp::cipher::encrypt<C>(x.v, y.v, z.v, o); same(o, want, "encrypt out"); o.clear(); mp::cipher::decrypt<C>(x.v, y.v, z.v, o); same(o, want, "decrypt out");
            W w(x.v, y.v); if (w.encrypt_size(z.v) != N || w.decrypt_size(z.v) != N) fail("size"); o.clear(); w.encrypt(z.v, o); same(o, want, "apie"); w.initialize(x.v, y.v); o.clear(); w.decrypt(z.v, o); same(o, want, "apie decrypt"); eval(sigs({u64(q), 10}));
        });
    });
    CASE(strf("cipher.%s.out", be).c_str(), tier(3, 40))
    {
        bytes k = r.vec(32), iv = r.vec(16), m = r.vec(N), want = refc(k, iv, m);
        each<0, OUTS>([&](auto q)
        {
            using T = typename out_kind<q, N>::type; bytes init = r.vec(resizes<T> ? r.below(150) : N); hold<T> a(init), b(init), c(init), d(init); current("cipher output kind %d", int(q));
            if (mp::cipher::encrypt<C>(k, iv, m, a.v) != N) fail("size"); if (mp::cipher::decrypt<C>(k, iv, m, b.v) != N) fail("size"); W w(k, iv); if (w.encrypt(m, c.v) != N) fail("size"); w.initialize(k, iv); if (w.decrypt(m, d.v) != N) fail("size");
            same(a.get(), want, "encrypt"); same(b.get(), want, "decrypt"); same(c.get(), want, "apie"); same(d.get(), want, "apie decrypt");
            if constexpr (q < DYNS) { same(get(mp::cipher::encrypt<C, T>(k, iv, m)), want, "encrypt<dyn>"); same(get(mp::cipher::decrypt<C, T>(k, iv, m)), want, "decrypt<dyn>"); W v(k, iv); same(get(v.template encrypt<T>(m)), want, "apie<dyn>"); v.initialize(k, iv); same(get(v.template decrypt<T>(m)), want, "apie decrypt<dyn>"); }
            eval(sigs({u64(q), 11}));
        });
    });
}
#endif
#if PART == 4
template<class C> void aead_shapes(const char* be)
{
    using W = mp::aead::apie<C>; constexpr size_t N = 75, AN = 21;
    CASE(strf("aead.%s.ptr", be).c_str(), tier(2, 20))
    {
        bytes k = r.vec(32), iv = r.vec(12), a = r.vec(AN), m = r.vec(N); auto s = ref::aead_seal(k.data(), iv.data(), a.data(), AN, m.data(), N);
        each_byte([&](auto ta) { each_byte([&](auto tb) { each_byte([&](auto tc) { each_byte([&](auto to)
        {
            // remaining types follow the first four
            using TA = decltype(ta); using TB = decltype(tb); using TC = decltype(tc); using TO = decltype(to); auto x = as<TA>(k); auto y = as<TB>(iv); auto z = as<TC>(a); auto p = as<TO>(m); auto ct = as<TA>(s.ct); auto tg = as<TB>(s.tag); current("aead pointers");
            std::vector<TA> o(N); std::vector<TB> d(16); auto [on, dn] = mp::aead::encrypt<C>(x.data(), 32, y.data(), 12, z.data(), AN, p.data(), N, o.data(), d.data()); if (on != N || dn != 16) fail("sizes"); same(get(o), s.ct, "encrypt"); same(get(d), s.tag, "tag");
            std::vector<TO> q(N); milo::error e; mp::aead::decrypt<C>(x.data(), 32, y.data(), 12, z.data(), AN, ct.data(), N, tg.data(), 16, q.data(), e); if (e) fail("refused"); same(get(q), m, "decrypt"); q.assign(N, TO()); mp::aead::decrypt<C>(x.data(), 32, y.data(), 12, z.data(), AN, ct.data(), N, tg.data(), 16, q.data()); same(get(q), m, "decrypt throwing");
            W w(x.data(), 32, y.data(), 12); w.aad(z.data(), AN); o.assign(N, TA()); if (w.encrypt_size(p.data(), N) != N) fail("size"); w.encrypt(p.data(), N, o.data()); same(get(o), s.ct, "apie"); d.assign(16, TB()); w.digest(d.data()); same(get(d), s.tag, "apie tag"); d.assign(16, TB()); w.digest(d.data(), 16); same(get(d), s.tag, "apie tag n");
            w.initialize(x.data(), 32, y.data(), 12); w.aad(z.data(), AN); q.assign(N, TO()); if (w.decrypt_size(ct.data(), N) != N) fail("size"); w.decrypt(ct.data(), N, q.data()); same(get(q), m, "apie decrypt"); w.verify(tg.data(), 16); w.verify(tg.data(), 16, e); if (e) fail("refused");
            C c; c.initialize(x.data(), 32, y.data(), 12); c.aad(z.data(), AN); o.assign(N, TA()); c.encrypt(p.data(), N, o.data()); c.finalize(); d.assign(16, TB()); c.digest(d.data()); same(get(o), s.ct, "raw"); same(get(d), s.tag, "raw tag");
            c.initialize(x.data(), 32, y.data(), 12); c.aad(z.data(), AN); q.assign(N, TO()); c.decrypt(ct.data(), N, q.data()); c.finalize(); d.assign(16, TB()); c.digest(d.data(), 16); same(get(q), m, "raw decrypt"); same(get(d), s.tag, "raw decrypt tag");
            eval(sigs({12, r.next()}));
        }); }); }); });
    });
    CASE(strf("aead.%s.in", be).c_str(), tier(2, 20))
    {
        each<0, INS>([&](auto q)
        {
            using TA = typename in_kind<q, 32>::type; using TB = typename in_kind<(q * 7 + 3) % INS, 12>::type; using TC = typename in_kind<(q * 11 + 8) % INS, AN>::type; using TM = typename in_kind<(q * 3 + 1) % INS, N>::type; using TG = typename in_kind<(q * 2 + 5) % INS, 16>::type;
            bytes k = r.vec(32), iv = r.vec(12), a = r.vec(AN), m = r.vec(N); auto s = ref::aead_seal(k.data(), iv.data(), a.data(), AN, m.data(), N); const hold<TA> x(k); const hold<TB> y(iv); const hold<TC> z(a); const hold<TM> p(m), ct(s.ct); const hold<TG> tg(s.tag); current("aead kinds %d", int(q));
            { auto [o, d] = mp::aead::encrypt<C>(x.v, y.v, z.v, p.v); same(get(o), s.ct, "encrypt"); same(get(d), s.tag, "tag"); } { bytes o; std::array<char, 16> d; mp::aead::encrypt<C>(x.v, y.v, z.v, p.v, o, d); same(o, s.ct, "encrypt out"); same(get(d), s.tag, "tag out"); }
            milo::error e; same(get(mp::aead::decrypt<C>(x.v, y.v, z.v, ct.v, tg.v, e)), m, "decrypt"); if (e) fail("refused"); same(get(mp::aead::decrypt<C>(x.v, y.v, z.v, ct.v, tg.v)), m, "decrypt throwing"); bytes o; mp::aead::decrypt<C>(x.v, y.v, z.v, ct.v, tg.v, o, e); same(o, m, "decrypt out"); o.clear(); mp::aead::decrypt<C>(x.v, y.v, z.v, ct.v, tg.v, o); same(o, m, "decrypt out throwing");
            W w(x.v, y.v); w.aad(z.v); if (w.encrypt_size(p.v) != N) fail("size"); same(get(w.encrypt(p.v)), s.ct, "apie"); same(get(w.digest()), s.tag, "apie tag"); same(get(w.digest(16)), s.tag, "apie tag n"); w.initialize(x.v, y.v); w.aad(z.v); if (w.decrypt_size(ct.v) != N) fail("size"); same(get(w.decrypt(ct.v)), m, "apie decrypt"); w.verify(tg.v); w.verify(tg.v, e); if (e) fail("refused");
            eval(sigs({u64(q), 13}));
        });
    });
    CASE(strf("aead.%s.out", be).c_str(), tier(2, 20))
    {
        bytes k = r.vec(32), iv = r.vec(12), a = r.vec(AN), m = r.vec(N); auto s = ref::aead_seal(k.data(), iv.data(), a.data(), AN, m.data(), N);
        each<0, OUTS>([&](auto q)
        {
            using T = typename out_kind<q, N>::type; constexpr int qd = (q * 5 + 2) % OUTS; using TD = typename out_kind<qd, 16>::type; bytes init = r.vec(resizes<T> ? r.below(150) : N), initd = r.vec(resizes<TD> ? r.below(30) : 16); current("aead output kind %d", int(q)); milo::error e;
            { hold<T> o(init); hold<TD> d(initd); auto [x, y] = mp::aead::encrypt<C>(k, iv, a, m, o.v, d.v); if (x != N || y != 16) fail("sizes"); same(o.get(), s.ct, "encrypt"); same(d.get(), s.tag, "tag"); }
            { hold<T> o(init); if (mp::aead::decrypt<C>(k, iv, a, s.ct, s.tag, o.v, e) != N || e) fail("decrypt"); same(o.get(), m, "decrypt"); hold<T> p(init); if (mp::aead::decrypt<C>(k, iv, a, s.ct, s.tag, p.v) != N) fail("decrypt"); same(p.get(), m, "decrypt throwing"); }
            { hold<T> o(init), p(init); hold<TD> d(initd), f(initd); W w(k, iv); w.aad(a); w.encrypt(m, o.v); w.digest(d.v); w.digest(f.v, 16); same(o.get(), s.ct, "apie"); same(d.get(), s.tag, "apie tag"); same(f.get(), s.tag, "apie tag n"); w.initialize(k, iv); w.aad(a); w.decrypt(s.ct, p.v); same(p.get(), m, "apie decrypt"); }
            if constexpr (q < DYNS)
            {
                { auto [o, d] = mp::aead::encrypt<C, T>(k, iv, a, m); same(get(o), s.ct, "encrypt<dyn>"); same(get(d), s.tag, "tag"); } same(get(mp::aead::decrypt<C, T>(k, iv, a, s.ct, s.tag)), m, "decrypt<dyn>"); same(get(mp::aead::decrypt<C, T>(k, iv, a, s.ct, s.tag, e)), m, "decrypt<dyn> error");
                W w(k, iv); w.aad(a); same(get(w.template encrypt<T>(m)), s.ct, "apie<dyn>"); using T16 = typename out_kind<q, 16>::type; same(get(w.template digest<T16>(16)), s.tag, "apie digest<dyn>"); w.initialize(k, iv); w.aad(a); same(get(w.template decrypt<T>(s.ct)), m, "apie decrypt<dyn>");
            }
            else if constexpr (q < DYNS + STATS)
            {
                using T16 = typename out_kind<q, 16>::type; { auto [o, d] = mp::aead::encrypt<C, std::string, T16>(k, iv, a, m); same(get(o), s.ct, "encrypt<,static>"); same(get(d), s.tag, "tag<static>"); } W w(k, iv); w.aad(a); w.encrypt(m); same(get(w.template digest<T16>()), s.tag, "apie digest<static>");
            }
            eval(sigs({u64(q), 14}));
        });
    });
}
#endif
#if PART == 5
template<class C> void codec_shapes(const char* nm, std::string (*refe)(const u8*, size_t))
{
    constexpr size_t N = 34; constexpr size_t TN = std::is_same_v<C, prim::b16> ? 68 : 48; using W = mp::codec::apie<C>;
    CASE(strf("%s.ptr", nm).c_str(), tier(6, 100))
    {
        bytes m = r.vec(N); auto ts = refe(m.data(), N); bytes t(ts.begin(), ts.end()); if (t.size() != TN) fail("harness");
        each_byte([&](auto ta) { each_byte([&](auto tb)
        {
            using TA = decltype(ta); using TB = decltype(tb); auto x = as<TA>(m); auto y = as<TA>(t); std::vector<TB> o(TN), p(N); milo::error e; current("codec pointers");
            if (mp::codec::encode<C>(x.data(), N, o.data()) != TN) fail("size"); same(get(o), t, "encode"); o.assign(TN, TB()); C::encode(x.data(), N, o.data()); same(get(o), t, "raw encode"); o.assign(TN, TB()); W::encode(x.data(), N, o.data()); same(get(o), t, "apie encode"); if (C::encode_size(x.data(), N) != TN || W::encode_size(x.data(), N) != TN) fail("encode_size");
            if (mp::codec::decode<C>(y.data(), TN, p.data(), e) != N || e) fail("size"); same(get(p), m, "decode"); p.assign(N, TB()); mp::codec::decode<C>(y.data(), TN, p.data()); same(get(p), m, "decode throwing"); p.assign(N, TB()); C::decode(y.data(), TN, p.data(), e); same(get(p), m, "raw decode");
            p.assign(N, TB()); W::decode(y.data(), TN, p.data(), e); same(get(p), m, "apie decode"); p.assign(N, TB()); W::decode(y.data(), TN, p.data()); same(get(p), m, "apie decode throwing"); if (C::decode_size(y.data(), TN) < N || W::decode_size(y.data(), TN) < N) fail("decode_size"); eval(sigs({15, r.next()}));
        }); });
    });
    CASE(strf("%s.in", nm).c_str(), tier(6, 100))
    {
        each<0, INS>([&](auto q)
        {
            using TA = typename in_kind<q, N>::type; using TB = typename in_kind<q, TN>::type; bytes m = r.vec(N); auto ts = refe(m.data(), N); bytes t(ts.begin(), ts.end()); const hold<TA> x(m); const hold<TB> y(t); milo::error e; bytes o; current("codec kind %d", int(q));
            same(get(mp::codec::encode<C>(x.v)), t, "encode"); mp::codec::encode<C>(x.v, o); same(o, t, "encode out"); o.clear(); W::encode(x.v, o); same(o, t, "apie encode out"); same(get(W::template encode<bytes>(x.v)), t, "apie encode"); if (W::encode_size(x.v) != TN) fail("encode_size");
            same(get(mp::codec::decode<C>(y.v)), m, "decode"); o.clear(); mp::codec::decode<C>(y.v, o, e); same(o, m, "decode out"); o.clear(); mp::codec::decode<C>(y.v, o); same(o, m, "decode out throwing"); o.clear(); W::decode(y.v, o, e); same(o, m, "apie decode"); o.clear(); W::decode(y.v, o); same(o, m, "apie decode throwing"); same(get(W::template decode<bytes>(y.v)), m, "apie decode value"); if (W::decode_size(y.v) < N) fail("decode_size");
            eval(sigs({u64(q), 16}));
        });
    });
    CASE(strf("%s.out", nm).c_str(), tier(6, 100))
    {
        bytes m = r.vec(N); auto ts = refe(m.data(), N); bytes t(ts.begin(), ts.end());
        each<0, OUTS>([&](auto q)
        {
            using TA = typename out_kind<q, TN>::type; using TB = typename out_kind<q, N>::type; bytes ia = r.vec(resizes<TA> ? r.below(150) : TN), ib = r.vec(resizes<TB> ? r.below(150) : N); milo::error e; hold<TA> a(ia), b(ia); hold<TB> c(ib), d(ib), f(ib), g(ib); current("codec output kind %d", int(q));
            if (mp::codec::encode<C>(m, a.v) != TN) fail("size"); same(a.get(), t, "encode"); W::encode(m, b.v); same(b.get(), t, "apie encode"); if (mp::codec::decode<C>(t, c.v, e) != N || e) fail("size"); same(c.get(), m, "decode"); if (mp::codec::decode<C>(t, d.v) != N) fail("size"); same(d.get(), m, "decode throwing"); W::decode(t, f.v, e); same(f.get(), m, "apie decode"); W::decode(t, g.v); same(g.get(), m, "apie decode throwing");
            if constexpr (q < DYNS) { same(get(mp::codec::encode<C, TA>(m)), t, "encode<dyn>"); same(get(mp::codec::decode<C, TB>(t)), m, "decode<dyn>"); same(get(W::template encode<TA>(m)), t, "apie encode<dyn>"); same(get(W::template decode<TB>(t)), m, "apie decode<dyn>"); }
            eval(sigs({u64(q), 17}));
        });
    });
}
static void literals()
{
    using namespace milo::literal;
    cases("C17.literals", 1, [&](rng&, u64)
    {
        auto S = [](const char* p, size_t n) { return bytes(reinterpret_cast<const u8*>(p), reinterpret_cast<const u8*>(p) + n); };
        #define L(T) { current("literal %s", #T); same(get(T##_b), S(T, sizeof(T) - 1), "_b"); same(get(T##_bv), S(T, sizeof(T) - 1), "_bv"); same(get(T##_c), S(T, sizeof(T) - 1), "_c"); same(get(T##_cv), S(T, sizeof(T) - 1), "_cv"); eval(sig_of(T, sizeof(T))); }
        L("") L("a") L("message") L("with\0null") L("\xff\x80\x7f\x00\x01") L("a somewhat longer piece of text that does not fit into any small buffer at all, really")
        #undef L
        #define X(T) { current("literal %s", #T); bytes w; if (!ref::b16d(reinterpret_cast<const u8*>(T), sizeof(T) - 1, w)) fail("harness"); same(get(T##_base_16), w, "_base_16"); eval(sig_of(T, sizeof(T))); }
        X("") X("00") X("ff") X("0123456789abcdef") X("DEADbeef") X("fff") X("A") X("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f")
        #undef X
        auto b64 = [&](const bytes& got, const char* t, const char* plain, size_t n) { current("literal %s", t); same(got, S(plain, n), "_base_64"); eval(sig_of(t, strlen(t))); };
        b64(get(""_base_64), "", "", 0); b64(get("AA=="_base_64), "AA==", "\0", 1); b64(get("/+8="_base_64), "/+8=", "\xff\xef", 2); b64(get("bWVzc2FnZQ=="_base_64), "bWVzc2FnZQ==", "message", 7); b64(get("Zm9vYmFy"_base_64), "Zm9vYmFy", "foobar", 6); b64(get("AAECAwQFBgcICQ=="_base_64), "AAECAwQFBgcICQ==", "\0\1\2\3\4\5\6\7\10\11", 10);
        #define BAD(E) { bool t = false; try { (void)E; } catch (const milo::error&) { t = true; } if (!t) fail("invalid literal accepted: " #E); eval(sig_of(#E, sizeof(#E))); }
        BAD("0g"_base_16) BAD("x"_base_16) BAD("0 "_base_16) BAD("A"_base_64) BAD("AA=A"_base_64) BAD("A==="_base_64) BAD("AAA*"_base_64) BAD("AA==AA=="_base_64)
        // usable where constants are wanted
        static_assert("616263"_base_16.size() == 3 && "616263"_base_16[2] == 0x63); static_assert("YWJj"_base_64.size() == 3 && "YWJj"_base_64[0] == 0x61); static_assert("xy"_c[1] == 'y'); static_assert("xy"_cv.size() == 2);
        // and as inputs of everything else
        same(get(mp::hash::digest<mp::hash::sha_2_256<>>("616263"_base_16)), ref::hash(ref::SHA256, reinterpret_cast<const u8*>("abc"), 3), "literal as input"); same(get(mp::hash::digest<mp::hash::sha_2_256<>>("abc"_bv)), ref::hash(ref::SHA256, reinterpret_cast<const u8*>("abc"), 3), "literal as input");
    });
}
#endif
int main()
{
    init();
    #if PART == 0
    #define HS(N) hash_shapes<ref::N, typename prim::hash_of<ref::N>::any>();
    FOR_ALG(HS)
    hash_shapes<ref::SHA256, prim::hash_of<ref::SHA256>::sw>();
    #elif PART == 1
    #define MS(N) mac_shapes<prim::hmac<typename prim::hash_of<ref::N>::any>>(ref::aname(ref::N), [](const bytes& k, const bytes& m) { return ref::hmac(ref::N, k.data(), k.size(), m.data(), m.size()); });
    MS(SHA1) MS(SHA256) MS(SHA512) MS(SHA512_224)
    mac_shapes<prim::poly>("poly", [](const bytes& k, const bytes& m) { return ref::poly1305(k.data(), m.data(), m.size()); });
    #elif PART == 2
    kdf_shapes<prim::hkdf<mp::hash::sha_2_256<>>, true, ref::SHA256>("hkdf.sha256"); kdf_shapes<prim::hkdf<mp::hash::sha_2_512<>>, true, ref::SHA512>("hkdf.sha512");
    kdf_shapes<prim::pbkdf<mp::hash::sha_1_160<>>, false, ref::SHA1>("pbkdf2.sha1"); kdf_shapes<prim::pbkdf<mp::hash::sha_2_384<>>, false, ref::SHA384>("pbkdf2.sha384");
    #elif PART == 3
    cipher_shapes<mp::cipher::chacha_20<>>("any"); cipher_shapes<mp::cipher_chacha_20_sw>("sw");
    #elif PART == 4
    aead_shapes<mp::aead::chacha_20_poly_1305<>>("any");
    #else
    codec_shapes<prim::b16>("base16", ref::b16e); codec_shapes<prim::b64>("base64", ref::b64e); literals();
    #endif
    return finish();
}
