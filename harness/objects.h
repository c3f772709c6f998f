// Every primitive behind one interface, with a model that knows what each call must return: used to drive random histories.
#pragma once
#include "prim.h"
#include <memory>
#include <new>
#include <optional>
#include <utility>

namespace ob
{
    using namespace vh;
    using sp = std::shared_ptr<bytes>;
    inline sp own(bytes b) { return std::make_shared<bytes>(std::move(b)); }

    // Pieces of input in a private allocation of exactly that size.
    struct exact { std::unique_ptr<u8[]> m; size_t n; exact(rng& r, size_t a) : m(a ? new u8[a] : nullptr), n(a) { r.data(m.get(), a); } const u8* data() const { return m.get(); } };

    template<ref::alg A, class H, bool APIE> struct hash_ad
    {
        using T = std::conditional_t<APIE, mp::hash::apie<H>, H>;
        struct M { bytes msg; bool fin = false; };
        static std::string name() { return std::string("hash.") + ref::aname(A) + (APIE ? "" : ".raw"); }
        static void init(T& t, M& m, rng&) { t.initialize(); m = M{}; }
        static void make(void* p, M& m, rng&) { T* t = new (p) T; if constexpr (!APIE) t->initialize(); m = M{}; }
        static void dig(T& t, M& m, rng& r)
        {
            constexpr size_t D = H::digest_size; if (!m.fin) { if constexpr (!APIE) t.finalize(); m.fin = true; }
            bytes want = ref::hash(A, m.msg.data(), m.msg.size()); size_t n = r.chance(3) ? r.below(D + 8) : D; u8 o[D + 8]; memset(o, 0xa5, sizeof o); size_t g = r.chance(3) ? (n = D, t.digest(o)) : t.digest(o, n); n = std::min(n, D);
            if (g != n) fail("digest size"); check_eq(o, std::min(g, D), want.data(), n, "digest"); for (size_t i = n; i < sizeof o; i++) if (o[i] != 0xa5) { fail("written past the digest"); break; }
            count("digests");
        }
        static void step(T& t, M& m, rng& r)
        {
            if (m.fin || r.chance(5)) { dig(t, m, r); return; }
            exact e(r, r.len(r.chance(8) ? 1500 : 300)); m.msg.insert(m.msg.end(), e.data(), e.data() + e.n); t.update(e.data(), e.n);
        }
        static void finish(T& t, M& m, rng& r) { dig(t, m, r); dig(t, m, r); }
    };
    template<class MAC, bool APIE, class REF> struct mac_ad
    {
        using T = std::conditional_t<APIE, mp::mac::apie<MAC>, MAC>;
        struct M { bytes key, msg; bool fin = false; };
        static std::string name() { return "mac." + REF::name() + (APIE ? "" : ".raw"); }
        static void key(M& m, rng& r) { m = M{}; m.key = r.vec(REF::keylen(r)); }
        static void init(T& t, M& m, rng& r) { key(m, r); if constexpr (APIE) { if (r.chance(2)) { t.initialize(m.key); return; } } t.initialize(m.key.data(), m.key.size()); }
        static void make(void* p, M& m, rng& r)
        {
            key(m, r);
            if constexpr (APIE) { if (r.chance(2)) { if (r.chance(2)) new (p) T(m.key); else new (p) T(m.key.data(), m.key.size()); return; } }
            T* t = new (p) T; t->initialize(m.key.data(), m.key.size());
        }
        static void dig(T& t, M& m, rng& r)
        {
            constexpr size_t D = MAC::digest_size; if (!m.fin) { if constexpr (!APIE) t.finalize(); m.fin = true; }
            bytes want = REF::mac(m.key, m.msg); size_t n = r.chance(3) ? r.below(D + 8) : D; u8 o[D + 8]; memset(o, 0xa5, sizeof o); size_t g = r.chance(3) ? (n = D, t.digest(o)) : t.digest(o, n); n = std::min(n, D);
            if (g != n) fail("tag size"); check_eq(o, std::min(g, D), want.data(), n, "tag"); for (size_t i = n; i < sizeof o; i++) if (o[i] != 0xa5) { fail("written past the tag"); break; }
            count("digests");
        }
        static void step(T& t, M& m, rng& r)
        {
            if (m.fin || r.chance(5)) { dig(t, m, r); return; }
            exact e(r, r.len(r.chance(8) ? 1500 : 300)); m.msg.insert(m.msg.end(), e.data(), e.data() + e.n); t.update(e.data(), e.n);
        }
        static void finish(T& t, M& m, rng& r) { dig(t, m, r); dig(t, m, r); }
    };
    template<ref::alg A> struct ref_hmac
    {
        static std::string name() { return std::string("hmac.") + ref::aname(A); }
        static size_t keylen(rng& r) { size_t b = ref::blen(A); return r.chance(3) ? b - 2 + r.below(5) : r.below(b * 2 + 20); }
        static bytes mac(const bytes& k, const bytes& m) { return ref::hmac(A, k.data(), k.size(), m.data(), m.size()); }
    };
    struct ref_poly
    {
        static std::string name() { return "poly"; }
        static size_t keylen(rng& r) { return r.chance(5) ? r.below(50) : 32; }
        static bytes mac(const bytes& k, const bytes& m) { bytes q(k); q.resize(32); return ref::poly1305(q.data(), m.data(), m.size()); }
    };

    // Key derivation: inputs have to outlive the object, so copies share them.
    template<ref::alg A, class K, bool HKDF, bool APIE> struct kdf_ad
    {
        using T = std::conditional_t<APIE, mp::kdf::apie<K>, K>;
        struct M { sp a, b, c; unsigned it = 0; sp out; size_t pos = 0; };
        static std::string name() { return std::string(HKDF ? "hkdf." : "pbkdf2.") + ref::aname(A) + (APIE ? "" : ".raw"); }
        static constexpr size_t total() { return HKDF ? 900 : 500; }
        static void par(M& m, rng& r)
        {
            m = M{}; m.a = own(r.vec(r.chance(6) ? 0 : r.len(200))); m.b = own(r.vec(r.chance(6) ? 0 : r.len(200))); m.c = own(r.vec(r.chance(4) ? 0 : r.len(150))); m.it = unsigned(1 + r.below(3));
            if constexpr (HKDF) m.out = own(ref::hkdf(A, m.a->data(), m.a->size(), m.b->data(), m.b->size(), m.c->data(), m.c->size(), total()));
            else m.out = own(ref::pbkdf2(A, m.a->data(), m.a->size(), m.b->data(), m.b->size(), m.it, total()));
        }
        static void init(T& t, M& m, rng& r)
        {
            par(m, r);
            if constexpr (APIE) { if (r.chance(2)) { if constexpr (HKDF) t.initialize(*m.a, *m.b, *m.c); else t.initialize(*m.a, *m.b, m.it); return; } }
            if constexpr (HKDF) t.initialize(m.a->data(), m.a->size(), m.b->data(), m.b->size(), m.c->data(), m.c->size()); else t.initialize(m.a->data(), m.a->size(), m.b->data(), m.b->size(), m.it);
        }
        static void make(void* p, M& m, rng& r)
        {
            if constexpr (APIE)
            {
                if (r.chance(2))
                {
                    par(m, r); bool q = r.chance(2);
                    if constexpr (HKDF) { if (q) new (p) T(*m.a, *m.b, *m.c); else new (p) T(m.a->data(), m.a->size(), m.b->data(), m.b->size(), m.c->data(), m.c->size()); }
                    else { if (q) new (p) T(*m.a, *m.b, m.it); else new (p) T(m.a->data(), m.a->size(), m.b->data(), m.b->size(), m.it); }
                    return;
                }
            }
            T* t = new (p) T; init(*t, m, r);
        }
        static void take(T& t, M& m, size_t n)
        {
            n = std::min(n, total() - m.pos); std::unique_ptr<u8[]> o(new u8[n]); size_t g = t.derive(o.get(), n); if (g != n) fail("derived size");
            check_eq(o.get(), n, m.out->data() + m.pos, n, "derived bytes"); m.pos += n; count("derived_bytes", n);
        }
        static void step(T& t, M& m, rng& r) { take(t, m, r.chance(6) ? 0 : r.chance(2) ? r.below(40) : r.len(250)); }
        static void finish(T& t, M& m, rng& r) { take(t, m, r.below(70)); take(t, m, 1 + r.below(150)); }
    };
    template<class C, bool APIE> struct cipher_ad
    {
        using T = std::conditional_t<APIE, mp::cipher::apie<C>, C>;
        struct M { bytes key, iv; u64 pos = 0; };
        static std::string name() { return std::string("cipher") + (APIE ? "" : ".raw"); }
        static void par(M& m, rng& r) { m = M{}; m.key = r.vec(32); m.iv = r.vec(16); if (r.chance(3)) memset(m.iv.data(), 0xff, 4); }
        static void init(T& t, M& m, rng& r) { par(m, r); if constexpr (APIE) { if (r.chance(2)) { t.initialize(m.key, m.iv); return; } } t.initialize(m.key.data(), 32, m.iv.data(), 16); }
        static void make(void* p, M& m, rng& r)
        {
            if constexpr (APIE) { if (r.chance(2)) { par(m, r); if (r.chance(2)) new (p) T(m.key, m.iv); else new (p) T(m.key.data(), 32, m.iv.data(), 16); return; } }
            T* t = new (p) T; init(*t, m, r);
        }
        static void run(T& t, M& m, rng& r, size_t n)
        {
            exact in(r, n); bytes want(n), o(n); ref::u32 ctr = ref::u32(m.iv[0] | m.iv[1] << 8 | m.iv[2] << 16) | ref::u32(m.iv[3]) << 24;
            u64 b = m.pos / 64, off = m.pos % 64; u8 ks[64];
            for (size_t i = 0, k = off; i < n; i++, k++) { if (i == 0 || k % 64 == 0) ref::chacha_block(m.key.data(), ref::u32(ctr + b + k / 64), m.iv.data() + 4, ks); want[i] = u8(in.data()[i] ^ ks[k % 64]); }
            size_t g = r.chance(2) ? t.encrypt(in.data(), n, o.data()) : t.decrypt(in.data(), n, o.data()); if (g != n) fail("size"); check_eq(o, want, "text"); m.pos += n; count("cipher_bytes", n);
        }
        static void step(T& t, M& m, rng& r) { run(t, m, r, r.chance(6) ? 0 : r.len(r.chance(6) ? 2600 : 600)); }
        static void finish(T& t, M& m, rng& r) { run(t, m, r, 1 + r.len(700)); }
    };
    template<class C, bool APIE> struct aead_ad
    {
        using T = std::conditional_t<APIE, mp::aead::apie<C>, C>;
        struct M { bytes key, iv, aad, ct; bool enc = false, texts = false, fin = false; };
        static std::string name() { return std::string("aead") + (APIE ? "" : ".raw"); }
        static void par(M& m, rng& r) { m = M{}; m.key = r.vec(32); m.iv = r.vec(12); m.enc = r.chance(2); }
        static void init(T& t, M& m, rng& r) { par(m, r); if constexpr (APIE) { if (r.chance(2)) { t.initialize(m.key, m.iv); return; } } t.initialize(m.key.data(), 32, m.iv.data(), 12); }
        static void make(void* p, M& m, rng& r)
        {
            if constexpr (APIE) { if (r.chance(2)) { par(m, r); if (r.chance(2)) new (p) T(m.key, m.iv); else new (p) T(m.key.data(), 32, m.iv.data(), 12); return; } }
            T* t = new (p) T; init(*t, m, r);
        }
        static void dig(T& t, M& m, rng& r)
        {
            if (!m.fin) { if constexpr (!APIE) t.finalize(); m.fin = true; }
            bytes want = ref::aead_tag(m.key.data(), m.iv.data(), m.aad.data(), m.aad.size(), m.ct.data(), m.ct.size());
            if constexpr (APIE)
                switch (r.below(4))
                {
                    case 0: { milo::error e(milo::error::size); t.verify(want.data(), 16, e); if (e) fail("right tag refused"); return; }
                    case 1: { bytes w(want); w[r.below(16)] ^= u8(1u << r.below(8)); milo::error e; t.verify(w, e); if (!e) fail("wrong tag accepted"); return; }
                }
            size_t n = r.chance(3) ? r.below(20) : 16; u8 o[24]; memset(o, 0xa5, 24); size_t g = t.digest(o, n); n = std::min<size_t>(n, 16); if (g != n) fail("tag size"); check_eq(o, std::min<size_t>(g, 16), want.data(), n, "tag");
            for (size_t i = n; i < 24; i++) if (o[i] != 0xa5) { fail("written past the tag"); break; }
            count("digests");
        }
        static void step(T& t, M& m, rng& r)
        {
            if (m.fin || r.chance(6)) { dig(t, m, r); return; }
            if (!m.texts && r.chance(2)) { exact e(r, r.len(200)); m.aad.insert(m.aad.end(), e.data(), e.data() + e.n); t.aad(e.data(), e.n); return; }
            if constexpr (!APIE) { if (!m.texts && r.chance(3)) t.aadover(); }
            size_t n = r.len(r.chance(8) ? 2000 : 400); exact in(r, n); bytes o(n), want(n); ref::u32 c0 = 1; size_t pos = m.ct.size(); m.texts = true; u8 ks[64];
            for (size_t i = 0; i < n; i++) { size_t k = pos + i; if (i == 0 || k % 64 == 0) ref::chacha_block(m.key.data(), ref::u32(c0 + k / 64), m.iv.data(), ks); want[i] = u8(in.data()[i] ^ ks[k % 64]); }
            size_t g = m.enc ? t.encrypt(in.data(), n, o.data()) : t.decrypt(in.data(), n, o.data()); if (g != n) fail("size"); check_eq(o, want, "text");
            const u8* c = m.enc ? want.data() : in.data(); m.ct.insert(m.ct.end(), c, c + n);
        }
        static void finish(T& t, M& m, rng& r) { step(t, m, r); dig(t, m, r); dig(t, m, r); }
    };
    struct bad_deleter { void operator()(void* p) const { free(p); } };

    // f(adapter, backend) for every primitive of part PART.
    template<class F> void hashes(F&& f)
    {
        #define OB_H(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { using H = typename decltype(t)::type; f(hash_ad<ref::N, H, true>{}, be); f(hash_ad<ref::N, H, false>{}, be); });
        FOR_ALG(OB_H)
        #undef OB_H
    }
    template<class F> void macs(F&& f)
    {
        #define OB_H(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { using H = typename decltype(t)::type; if (strcmp(be, "any") == 0 && ref::N % 2) { } f(mac_ad<prim::hmac<H>, true, ref_hmac<ref::N>>{}, be); f(mac_ad<prim::hmac<H>, false, ref_hmac<ref::N>>{}, be); });
        FOR_ALG(OB_H)
        #undef OB_H
        f(mac_ad<prim::poly, true, ref_poly>{}, "any"); f(mac_ad<prim::poly, false, ref_poly>{}, "any");
    }
    template<class F> void hkdfs(F&& f)
    {
        #define OB_H(N) { using H = typename prim::hash_of<ref::N>::any; f(kdf_ad<ref::N, prim::hkdf<H>, true, true>{}, "any"); f(kdf_ad<ref::N, prim::hkdf<H>, true, false>{}, "any"); }
        FOR_ALG(OB_H)
        #undef OB_H
    }
    template<class F> void pbkdfs(F&& f)
    {
        #define OB_H(N) { using H = typename prim::hash_of<ref::N>::any; f(kdf_ad<ref::N, prim::pbkdf<H>, false, true>{}, "any"); f(kdf_ad<ref::N, prim::pbkdf<H>, false, false>{}, "any"); }
        FOR_ALG(OB_H)
        #undef OB_H
    }
    template<class F> void ciphers(F&& f)
    {
        prim::cipher_backends([&](const char* be, auto t) { using C = typename decltype(t)::type; f(cipher_ad<C, true>{}, be); f(cipher_ad<C, false>{}, be); });
        prim::aead_backends([&](const char* be, auto t) { using C = typename decltype(t)::type; f(aead_ad<C, true>{}, be); f(aead_ad<C, false>{}, be); });
        prim::cipher_backends([&](const char* be, auto t) { using C = mp::detail::aead_chacha_20_poly_1305<typename decltype(t)::type, prim::poly>; if (be[0] == 'a' && be[1] == 'n') return; if (be[1] == 'w') return; f(aead_ad<C, true>{}, be); f(aead_ad<C, false>{}, be); });
    }
    #ifndef PART
    #define PART 0
    #endif
    template<class F> void part(F&& f)
    {
        #if PART == 0
        hashes(f);
        #elif PART == 1
        macs(f);
        #elif PART == 2
        hkdfs(f);
        #elif PART == 3
        pbkdfs(f);
        #else
        ciphers(f);
        #endif
    }
}
