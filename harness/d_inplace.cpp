// C28: output range equal to input range, and outputs that take the place of earlier inputs.
#include "prim.h"
using namespace vh;
struct span_m { using value_type = u8; u8* p = nullptr; size_t n = 0; u8* data() const noexcept { return p; } size_t size() const noexcept { return n; } };
static ref::u32 counter(const bytes& iv) { return ref::u32(iv[0] | iv[1] << 8 | iv[2] << 16) | ref::u32(iv[3]) << 24; }

template<class C> void cipher_run(const char* be)
{
    auto g = [&](const char* n) { return std::string("C28.cipher.") + n + "." + be; };
    auto one = [&](rng& r, size_t n, unsigned way, size_t off)
    {
        bytes k = r.vec(32), iv = r.vec(16), m = r.vec(n), want(n); if (r.chance(4)) memset(iv.data(), 0xff, 4);
        ref::chacha_xor(k.data(), counter(iv), iv.data() + 4, m.data(), n, want.data()); current("%s n=%zu way=%u off=%zu", be, n, way, off);
        canary b(r, n, off); if (n) memcpy(b.p(), m.data(), n); u8* p = b.p(); size_t got = n; bool enc = way & 1;
        switch (way / 2)
        {
            case 0: got = enc ? mp::cipher::encrypt<C>(k.data(), 32, iv.data(), 16, p, n, p) : mp::cipher::decrypt<C>(k.data(), 32, iv.data(), 16, p, n, p); break;
            case 1: { mp::cipher::apie<C> h(k, iv); size_t at = 0; for (auto c : split(r, n)) { if (enc) h.encrypt(p + at, c, p + at); else h.decrypt(p + at, c, p + at); at += c; } break; }
            case 2: { span_m s{p, n}; mp::cipher::apie<C> h(k, iv); got = enc ? h.encrypt(s, s) : h.decrypt(s, s); break; }
            case 3: { bytes v(m); got = enc ? mp::cipher::encrypt<C>(k, iv, v, v) : mp::cipher::decrypt<C>(k, iv, v, v); check_eq(v, want, "vector in place"); if (n) memcpy(p, v.data(), std::min(n, v.size())); break; }
            case 4: { C c; c.initialize(k.data(), 32, iv.data(), 16); size_t at = 0; for (auto q : split(r, n)) { if (enc) c.encrypt(p + at, q, p + at); else c.decrypt(p + at, q, p + at); at += q; } break; }
            // pieces alternately in place and to another buffer
            case 5: { mp::cipher::apie<C> h(k, iv); size_t at = 0; bytes o(n); unsigned i = 0; for (auto c : split(r, n)) { u8* to = i++ & 1 ? o.data() + at : p + at; if (enc) h.encrypt(p + at, c, to); else h.decrypt(p + at, c, to); if (to != p + at) { check_eq(p + at, c, m.data() + at, c, "input of another buffer"); if (c) memcpy(p + at, to, c); } at += c; } break; }
        }
        if (got != n) fail("size"); check_eq(b.p(), n, want.data(), n, "in place"); if (!b.ok(n)) fail("outside of the range was written"); eval(sigs({n, way, off, n > 2000 ? r.next() : 0, sig_of(be, strlen(be))}), n > 0);
    };
    cases(g("len").c_str(), 1100, [&](rng& r, u64 n) { for (unsigned w = 0; w < 12; w++) for (u64 i = 0; i < tier(1, 8); i++) one(r, n, w, r.below(64)); });
    cases(g("align").c_str(), 64, [&](rng& r, u64 off) { for (unsigned w = 0; w < 12; w++) { one(r, 512 + r.below(700), w, off); one(r, r.below(70), w, off); } });
    cases(g("rand").c_str(), tier(2000, 50000), [&](rng& r, u64) { one(r, r.len(40000), unsigned(r.below(12)), r.below(64)); });
    cases(g("large").c_str(), tier(12, 60), [&](rng& r, u64 i) { for (unsigned w = 0; w < 12; w += 2) one(r, (size_t(64) << (8 + i % 10)) + r.below(600), w + unsigned(i & 1), r.below(64)); });
    // key and iv in the buffer that receives the text: they were consumed at initialisation
    cases(g("keybuf").c_str(), tier(1000, 20000), [&](rng& r, u64)
    {
        bytes k = r.vec(32), iv = r.vec(16), m = r.vec(48 + r.len(800)), want(m.size()); ref::chacha_xor(k.data(), counter(iv), iv.data() + 4, m.data(), m.size(), want.data()); bytes o(m.size()); memcpy(o.data(), k.data(), 32); memcpy(o.data() + 32, iv.data(), 16);
        mp::cipher::apie<C> h(o.data(), 32, o.data() + 32, 16); size_t at = 0; for (auto c : split(r, m.size())) { h.encrypt(m.data() + at, c, o.data() + at); at += c; } check_eq(o, want, "text over key and iv"); eval(sigs({m.size(), r.next()}));
    });
}
template<class C> void aead_run(const char* be)
{
    auto g = [&](const char* n) { return std::string("C28.aead.") + n + "." + be; };
    auto one = [&](rng& r, size_t n, unsigned way, size_t off)
    {
        bytes k = r.vec(32), iv = r.vec(12), m = r.vec(n), a = r.vec(r.chance(4) ? 0 : r.len(100)); auto s = ref::aead_seal(k.data(), iv.data(), a.data(), a.size(), m.data(), n); current("%s n=%zu way=%u off=%zu", be, n, way, off);
        bool enc = way & 1; const bytes &from = enc ? m : s.ct, &to = enc ? s.ct : m; canary b(r, n, off); if (n) memcpy(b.p(), from.data(), n); u8* p = b.p(); bytes tag(16); milo::error e(milo::error::size); bool judged = true;
        switch (way / 2)
        {
            case 0: if (enc) mp::aead::encrypt<C>(k.data(), 32, iv.data(), 12, a.data(), a.size(), p, n, p, tag.data()); else mp::aead::decrypt<C>(k.data(), 32, iv.data(), 12, a.data(), a.size(), p, n, s.tag.data(), 16, p, e); break;
            case 1: { mp::aead::apie<C> h(k, iv); h.aad(a); size_t at = 0; for (auto c : split(r, n)) { if (enc) h.encrypt(p + at, c, p + at); else h.decrypt(p + at, c, p + at); at += c; } h.digest(tag.data(), 16); h.verify(s.tag, e); break; }
            case 2: { span_m x{p, n}; mp::aead::apie<C> h(k, iv); h.aad(a); if (enc) h.encrypt(x, x); else h.decrypt(x, x); h.digest(tag); h.verify(s.tag, e); break; }
            case 3: { bytes v(from); if (enc) mp::aead::encrypt<C>(k, iv, a, v, v, tag); else mp::aead::decrypt<C>(k, iv, a, v, s.tag, v, e); if (n) memcpy(p, v.data(), std::min(n, v.size())); if (v.size() != n) fail("size"); break; }
            // in place, forged: a failure must be seen although the ciphertext is gone
            case 4: { bytes bad(s.tag); bad[r.below(16)] ^= u8(1u << r.below(8)); if (enc) { judged = false; break; } mp::aead::decrypt<C>(k.data(), 32, iv.data(), 12, a.data(), a.size(), p, n, bad.data(), 16, p, e); if (!e) fail("forgery accepted in place"); count("forgeries"); return eval(sigs({n, way, off})); }
            // the tag is written over the additional data
            case 5: { if (!enc || a.size() < 16) { judged = false; break; } bytes a2(a); mp::aead::encrypt<C>(k.data(), 32, iv.data(), 12, a2.data(), a2.size(), p, n, p, a2.data()); memcpy(tag.data(), a2.data(), 16); break; }
        }
        if (!judged) return; check_eq(b.p(), n, to.data(), n, "in place"); if (enc) check_eq(tag, s.tag, "tag"); else if (e) fail("authentic message rejected in place"); if (!b.ok(n)) fail("outside of the range was written"); eval(sigs({n, way, off, n > 1000 ? r.next() : 0, 99}), n > 0);
    };
    cases(g("len").c_str(), 700, [&](rng& r, u64 n) { for (unsigned w = 0; w < 12; w++) for (u64 i = 0; i < tier(1, 8); i++) one(r, n, w, r.below(64)); });
    cases(g("rand").c_str(), tier(2000, 50000), [&](rng& r, u64) { one(r, r.len(20000), unsigned(r.below(12)), r.below(64)); });
    cases(g("large").c_str(), tier(12, 60), [&](rng& r, u64 i) { for (unsigned w = 0; w < 12; w++) one(r, (size_t(64) << (8 + i % 9)) + r.below(600), w, r.below(64)); });
}
// Digest over the message, over the key, keys derived over their input and over each other.
template<ref::alg A> void over()
{
    using H = typename prim::hash_of<A>::any; using MAC = prim::hmac<H>; using HK = prim::hkdf<H>; using PB = prim::pbkdf<H>; constexpr size_t D = H::digest_size;
    cases(strf("C28.over.%s", ref::aname(A)).c_str(), tier(1500, 20000), [&](rng& r, u64 i)
    {
        size_t n = D + r.len(300); bytes m = r.vec(n), k = r.vec(D + r.len(200)); current("%s n=%zu", ref::aname(A), n);
        { bytes b(m); mp::hash::digest<H>(b.data(), n, b.data()); check_eq(b.data(), D, ref::hash(A, m.data(), n).data(), D, "digest over message"); check_eq(b.data() + D, n - D, m.data() + D, n - D, "rest of message"); }
        { bytes b(m); mp::hash::apie<H> h; size_t at = 0; for (auto c : split(r, n)) { h.update(b.data() + at, c); if (c) memset(b.data() + at, 0x5a, c); at += c; } u8 o[D]; h.digest(o); check_eq(o, D, ref::hash(A, m.data(), n).data(), D, "message overwritten after update"); }
        auto tag = ref::hmac(A, k.data(), k.size(), m.data(), n);
        { bytes b(m); mp::mac::digest<MAC>(k.data(), k.size(), b.data(), n, b.data()); check_eq(b.data(), D, tag.data(), D, "tag over message"); }
        { bytes b(k); mp::mac::digest<MAC>(b.data(), b.size(), m.data(), n, b.data()); check_eq(b.data(), D, tag.data(), D, "tag over key"); }
        { bytes b(k), c(m); mp::mac::apie<MAC> h(b); std::fill(b.begin(), b.end(), 0x11); size_t at = 0; for (auto q : split(r, n)) { h.update(c.data() + at, q); if (q) memset(c.data() + at, 0x22, q); at += q; } h.digest(c); bytes t(tag); check_eq(c, t, "key and message overwritten after use"); }
        // hkdf consumes ikm and salt at initialisation, and its output is never read again between calls
        bytes salt = r.vec(r.len(100)), info = r.vec(r.len(60)); auto out = ref::hkdf(A, k.data(), k.size(), salt.data(), salt.size(), info.data(), info.size(), 300);
        { bytes b(k), s(salt), o; mp::kdf::apie<HK> h(b, s, info); std::fill(b.begin(), b.end(), 0); std::fill(s.begin(), s.end(), 0); size_t at = 0; u8 w[300]; for (auto c : split(r, 300)) { h.derive(w, c); check_eq(w, c, out.data() + at, c, "derived into one buffer"); if (c) memset(w, 0xee, c); at += c; } }
        ref::u32 it = ref::u32(1 + i % 3); auto op = ref::pbkdf2(A, k.data(), k.size(), salt.data(), salt.size(), it, 200);
        { mp::kdf::apie<PB> h(k, salt, it); size_t at = 0; u8 w[200]; for (auto c : split(r, 200)) { h.derive(w, c); check_eq(w, c, op.data() + at, c, "pbkdf2 into one buffer"); if (c) memset(w, 0xee, c); at += c; } }
        eval(sigs({n, k.size(), u64(A), r.next()}));
    });
}
static void over_poly()
{
    cases("C28.over.poly", tier(5000, 50000), [&](rng& r, u64)
    {
        bytes k = r.vec(32), m = r.vec(16 + r.len(300)); auto t = ref::poly1305(k.data(), m.data(), m.size()); { bytes b(m); mp::mac::digest<prim::poly>(k.data(), 32, b.data(), b.size(), b.data()); check_eq(b.data(), 16, t.data(), 16, "tag over message"); }
        { bytes b(k); mp::mac::digest<prim::poly>(b.data(), 32, m.data(), m.size(), b.data()); check_eq(b.data(), 16, t.data(), 16, "tag over key"); } eval(sigs({m.size(), r.next()}));
    });
}
// Several objects at work on parts of one buffer, the outputs of one being the inputs of another.
static void mixed()
{
    using C = mp::cipher::chacha_20<>; using AE = mp::aead::chacha_20_poly_1305<>; using H = mp::hash::sha_2_256<>;
    cases("C28.mixed", tier(3000, 50000), [&](rng& r, u64)
    {
        size_t n = 1 + r.len(900); bytes k1 = r.vec(32), i1 = r.vec(16), k2 = r.vec(32), i2 = r.vec(12), m = r.vec(n), buf(m), model(m); ref::poly* p = nullptr; (void)p;
        mp::cipher::apie<C> a(k1, i1); mp::aead::apie<AE> b(k2, i2); mp::hash::apie<H> h; size_t at = 0; bytes t(n); ref::chacha_xor(k1.data(), counter(i1), i1.data() + 4, m.data(), n, t.data()); auto s = ref::aead_seal(k2.data(), i2.data(), nullptr, 0, t.data(), n);
        current("n=%zu", n);
        for (auto c : split(r, n)) { u8* q = buf.data() + at; a.encrypt(q, c, q); check_eq(q, c, t.data() + at, c, "first layer"); h.update(q, c); b.encrypt(q, c, q); check_eq(q, c, s.ct.data() + at, c, "second layer"); at += c; }
        u8 tag[16]; b.digest(tag, 16); check_eq(tag, 16, s.tag.data(), 16, "tag"); u8 d[32]; h.digest(d); check_eq(d, 32, ref::hash(ref::SHA256, t.data(), n).data(), 32, "hash between the layers"); eval(sigs({n, r.next()}));
    });
}
int main()
{
    init();
    prim::cipher_backends([](const char* be, auto t) { cipher_run<typename decltype(t)::type>(be); });
    prim::aead_backends([](const char* be, auto t) { aead_run<typename decltype(t)::type>(be); });
    #define OV(N) over<ref::N>();
    FOR_ALG(OV)
    over_poly(); mixed();
    return finish();
}
