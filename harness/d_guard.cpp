// C14: memory access stays inside the caller's buffers. Inputs are read-only, everything ends or begins at unmapped pages.
#include "guard.h"
#include "prim.h"
#include <memory>
using namespace vh;
#ifndef PART
#define PART 0
#endif
static arena A(1 << 16), B(1 << 16), Cc(1 << 16), D(1 << 17), O(1 << 17), P(1 << 17), OBJ(1 << 14);
// An object whose last byte lies before an unmapped page.
template<class T> struct edge
{
    T* t; edge() { static_assert(sizeof(T) < (1 << 14)); memset(OBJ.rw, 0x77, OBJ.cap); t = new (OBJ.rw + OBJ.cap - sizeof(T)) T; }
    ~edge() { t->~T(); for (size_t i = OBJ.cap - sizeof(T) - 128; i < OBJ.cap - sizeof(T); i++) if (OBJ.rw[i] != 0x77) { fail("written in front of the object"); break; } }
    T* operator->() { return t; }
};
static unsigned rot = 0;
static unsigned pos() { return rot++ % 3; }
// In case a size is 0: a null pointer, or one past the end at the unmapped page.
static const u8* in(arena& a, rng& r, const bytes& b) { if (b.empty() && r.chance(2)) { count("null_inputs"); return nullptr; } return a.in(r, b, pos()); }
template<class F> void sweep(const char* g, size_t max, u64 reps, u64 rnd, size_t rmax, F&& f)
{
    cases((std::string("C14.") + g + ".all").c_str(), max + 1, [&](rng& r, u64 n) { for (u64 i = 0; i < reps; i++) { for (unsigned p = 0; p < 3; p++) { rot = p; current("size=%zu pos=%u", size_t(n), p); f(r, n); eval(sigs({n, i, p, sig_of(g, strlen(g))})); } } });
    cases((std::string("C14.") + g + ".rand").c_str(), rnd, [&](rng& r, u64) { rot = unsigned(r.below(3)); size_t n = r.len(rmax); current("size=%zu pos=%u", n, rot); f(r, n); eval(sigs({n, r.next(), sig_of(g, strlen(g))})); });
}
// Pieces of an input, each placed anew at an edge.
template<class F> void pieces(arena& a, rng& r, const bytes& m, F&& f)
{
    size_t at = 0; auto v = r.chance(2) ? split(r, m.size()) : std::vector<size_t>{m.size()};
    for (auto c : v) { bytes b(m.begin() + long(at), m.begin() + long(at + c)); f(in(a, r, b), c, at); at += c; }
}
template<class F> void digest_out(rng& r, const bytes& want, F&& f)
{
    size_t n = r.chance(2) ? want.size() : r.below(want.size() + 10), lim = std::min(n, want.size()); u8* o = O.out(r, lim, pos()); size_t g = f(o, n);
    if (g != lim) fail("digest size"); check_eq(o, lim, want.data(), lim, "digest"); O.check(lim, "digest");
}
// A view that reports size and data, so that container forms can be pointed at the edges as well.
struct cview { using value_type = u8; const u8* p; size_t n; const u8* data() const noexcept { return p; } size_t size() const noexcept { return n; } };
struct mview { using value_type = u8; u8* p = nullptr; size_t n = 0; u8* data() const noexcept { return p; } size_t size() const noexcept { return n; } };

template<ref::alg AL> void hash_part()
{
    prim::hash_backends<AL>([&](const char* be, auto t)
    {
        using H = typename decltype(t)::type; constexpr size_t DS = H::digest_size;
        sweep(strf("hash.%s.%s", ref::aname(AL), be).c_str(), ref::blen(AL) * 4 + 8, tier(4, 20), tier(1500, 20000), 9000, [&](rng& r, size_t n)
        {
            bytes m = r.vec(n), want = ref::hash(AL, m.data(), n);
            { edge<mp::hash::apie<H>> h; pieces(A, r, m, [&](const u8* p, size_t c, size_t) { h->update(p, c); }); digest_out(r, want, [&](u8* o, size_t k) { return h->digest(o, k); }); digest_out(r, want, [&](u8* o, size_t k) { mview v{o, std::min(k, DS)}; return h->digest(v, k); }); }
            const u8* p = in(A, r, m); digest_out(r, want, [&](u8* o, size_t k) { return mp::hash::digest<H>(p, n, o, k); });
            digest_out(r, want, [&](u8* o, size_t k) { cview c{p, n}; mview v{o, std::min(k, DS)}; return mp::hash::digest<H>(c, v); });
        });
        using MAC = prim::hmac<H>;
        sweep(strf("hmac.%s.%s", ref::aname(AL), be).c_str(), ref::blen(AL) * 2 + 20, tier(4, 20), tier(600, 8000), 1000, [&](rng& r, size_t kn)
        {
            bytes k = r.vec(kn), m = r.vec(r.chance(5) ? 0 : r.len(500)), want = ref::hmac(AL, k.data(), kn, m.data(), m.size());
            { edge<mp::mac::apie<MAC>> h; h->initialize(in(B, r, k), kn); pieces(A, r, m, [&](const u8* p, size_t c, size_t) { h->update(p, c); }); digest_out(r, want, [&](u8* o, size_t q) { return h->digest(o, q); }); }
            const u8 *p = in(A, r, m), *q = in(B, r, k); digest_out(r, want, [&](u8* o, size_t s) { return mp::mac::digest<MAC>(q, kn, p, m.size(), o, s); });
        });
        if (strcmp(be, "any")) return;
        using HK = prim::hkdf<H>; using PB = prim::pbkdf<H>;
        sweep(strf("hkdf.%s", ref::aname(AL)).c_str(), DS * 3 + 5, tier(1, 5), tier(100, 2000), 900, [&](rng& r, size_t n)
        {
            bytes a = r.vec(r.chance(5) ? 0 : r.len(150)), b = r.vec(r.chance(5) ? 0 : r.len(150)), c = r.vec(r.chance(4) ? 0 : r.len(100)), want = ref::hkdf(AL, a.data(), a.size(), b.data(), b.size(), c.data(), c.size(), n);
            const u8 *pa = in(A, r, a), *pb = in(B, r, b), *pc = in(Cc, r, c);
            { edge<mp::kdf::apie<HK>> h; h->initialize(pa, a.size(), pb, b.size(), pc, c.size()); size_t at = 0; for (auto s : split(r, n)) { u8* o = O.out(r, s, pos()); size_t g = h->derive(o, s); O.check(g, "derive"); if (g != s) fail("size"); check_eq(o, s, want.data() + at, s, "derived"); at += s; } }
            u8* o = O.out(r, n, pos()); size_t g = mp::kdf::derive<HK>(pa, a.size(), pb, b.size(), pc, c.size(), o, n); O.check(g, "derive"); check_eq(o, g, want.data(), n, "derived");
        });
        sweep(strf("pbkdf2.%s", ref::aname(AL)).c_str(), DS * 3 + 5, tier(1, 5), tier(100, 2000), 500, [&](rng& r, size_t n)
        {
            bytes a = r.vec(r.chance(5) ? 0 : r.len(150)), b = r.vec(r.chance(5) ? 0 : r.len(150)); ref::u32 it = ref::u32(1 + r.below(3)); bytes want = ref::pbkdf2(AL, a.data(), a.size(), b.data(), b.size(), it, n);
            const u8 *pa = in(A, r, a), *pb = in(B, r, b);
            { edge<mp::kdf::apie<PB>> h; h->initialize(pa, a.size(), pb, b.size(), it); size_t at = 0; for (auto s : split(r, n)) { u8* o = O.out(r, s, pos()); size_t g = h->derive(o, s); O.check(g, "derive"); if (g != s) fail("size"); check_eq(o, s, want.data() + at, s, "derived"); at += s; } }
            u8* o = O.out(r, n, pos()); size_t g = mp::kdf::derive<PB>(pa, a.size(), pb, b.size(), it, o, n); O.check(g, "derive"); check_eq(o, g, want.data(), n, "derived");
        });
    });
}
static void poly_part()
{
    using MAC = prim::poly;
    sweep("poly", 150, tier(6, 40), tier(3000, 50000), 5000, [&](rng& r, size_t n)
    {
        bytes k = r.vec(r.chance(6) ? r.below(40) : 32), kk(k), m = r.vec(n); kk.resize(32); bytes want = ref::poly1305(kk.data(), m.data(), n);
        { edge<mp::mac::apie<MAC>> h; h->initialize(in(B, r, k), k.size()); pieces(A, r, m, [&](const u8* p, size_t c, size_t) { h->update(p, c); }); digest_out(r, want, [&](u8* o, size_t q) { return h->digest(o, q); }); }
        const u8 *p = in(A, r, m), *q = in(B, r, k); digest_out(r, want, [&](u8* o, size_t s) { return mp::mac::digest<MAC>(q, k.size(), p, n, o, s); });
    });
}
static void cipher_part()
{
    prim::cipher_backends([&](const char* be, auto t)
    {
        using C = typename decltype(t)::type;
        sweep(strf("cipher.%s", be).c_str(), 1100, tier(3, 12), tier(3000, 40000), 40000, [&](rng& r, size_t n)
        {
            bytes k = r.vec(32), iv = r.vec(16), m = r.vec(n), want(n); ref::u32 ctr = ref::u32(iv[0] | iv[1] << 8 | iv[2] << 16) | ref::u32(iv[3]) << 24; ref::chacha_xor(k.data(), ctr, iv.data() + 4, m.data(), n, want.data());
            bool enc = r.chance(2);
            {
                edge<mp::cipher::apie<C>> h; h->initialize(in(A, r, k), 32, in(B, r, iv), 16);
                pieces(D, r, m, [&](const u8* p, size_t c, size_t at) { u8* o = O.out(r, c, pos()); size_t g = enc ? h->encrypt(p, c, o) : h->decrypt(p, c, o); O.check(g, "cipher"); check_eq(o, g, want.data() + at, c, "text"); });
            }
            const u8 *pk = in(A, r, k), *pi = in(B, r, iv), *p = in(D, r, m); u8* o = O.out(r, n, pos()); cview ck{pk, 32}, ci{pi, 16}, cm{p, n}; mview mo{o, n}; size_t g;
            switch (r.below(4))
            {
                case 0: g = mp::cipher::encrypt<C>(pk, 32, pi, 16, p, n, o); break;
                case 1: g = mp::cipher::decrypt<C>(pk, 32, pi, 16, p, n, o); break;
                case 2: g = mp::cipher::encrypt<C>(ck, ci, cm, mo); break;
                default: g = mp::cipher::decrypt<C>(ck, ci, cm, mo);
            }
            O.check(g, "cipher"); check_eq(o, g, want.data(), n, "text");
            // short keys and ivs: nothing past them is read
            bytes ks = r.vec(r.below(32)), is = r.vec(r.below(16)); o = O.out(r, n, pos()); g = mp::cipher::encrypt<C>(in(A, r, ks), ks.size(), in(B, r, is), is.size(), p, n, o); O.check(g, "cipher");
        });
    });
}
static void aead_part()
{
    prim::aead_backends([&](const char* be, auto t)
    {
        using C = typename decltype(t)::type;
        sweep(strf("aead.%s", be).c_str(), 700, tier(2, 10), tier(2000, 30000), 20000, [&](rng& r, size_t n)
        {
            bytes k = r.vec(32), iv = r.vec(12), m = r.vec(n), a = r.vec(r.chance(5) ? 0 : r.len(300)); auto s = ref::aead_seal(k.data(), iv.data(), a.data(), a.size(), m.data(), n); const bytes &ct = s.ct, &tag = s.tag;
            const u8 *pk = in(A, r, k), *pi = in(B, r, iv), *pa = in(Cc, r, a);
            {
                edge<mp::aead::apie<C>> h; h->initialize(pk, 32, pi, 12); size_t at = 0;
                for (auto c : split(r, a.size())) { h->aad(pa + at, c); at += c; }
                pieces(D, r, m, [&](const u8* p, size_t c, size_t q) { u8* o = O.out(r, c, pos()); size_t g = h->encrypt(p, c, o); O.check(g, "aead"); check_eq(o, g, ct.data() + q, c, "ciphertext"); });
                digest_out(r, tag, [&](u8* o, size_t q) { return h->digest(o, q); });
                // verification reads no more of the tag than it is told it has
                bytes cut(tag.begin(), tag.begin() + long(r.below(17))); milo::error e; h->verify(in(P, r, cut), cut.size(), e); if (!e != (cut.size() == 16)) fail("verify");
            }
            const u8* p = in(D, r, m); u8 *o = O.out(r, n, pos()), *d = P.out(r, 16, pos());
            if (r.chance(2)) { auto [x, y] = mp::aead::encrypt<C>(pk, 32, pi, 12, pa, a.size(), p, n, o, d); O.check(x, "aead"); P.check(y, "tag"); }
            else { cview ck{pk, 32}, ci{pi, 12}, ca{pa, a.size()}, cm{p, n}; mview mo{o, n}, md{d, 16}; auto [x, y] = mp::aead::encrypt<C>(ck, ci, ca, cm, mo, md); O.check(x, "aead"); P.check(y, "tag"); }
            check_eq(o, n, ct.data(), n, "ciphertext"); check_eq(d, 16, tag.data(), 16, "tag");
            bytes bad(tag); bool forge = r.chance(2); if (forge) { if (r.chance(2)) bad.resize(r.below(16)); else bad[r.below(16)] ^= 4; }
            const u8 *c = in(D, r, ct), *pt = in(P, r, bad); o = O.out(r, n, pos()); milo::error e; size_t g = 0;
            if (r.chance(2)) g = mp::aead::decrypt<C>(pk, 32, pi, 12, pa, a.size(), c, n, pt, bad.size(), o, e);
            else { cview ck{pk, 32}, ci{pi, 12}, ca{pa, a.size()}, cm{c, n}, cd{pt, bad.size()}; mview mo{o, n}; g = mp::aead::decrypt<C>(ck, ci, ca, cm, cd, mo, e); }
            O.check(std::min(n, std::max(g, n)), "aead"); if (!e == forge) fail("decision"); if (!forge) check_eq(o, g, m.data(), n, "plaintext");
        });
    });
}
template<class C> void codec_one(const char* nm, std::string (*refe)(const u8*, size_t))
{
    sweep(strf("%s.encode", nm).c_str(), 300, tier(10, 60), tier(6000, 80000), 20000, [&](rng& r, size_t n)
    {
        bytes m = r.vec(n); const u8* p = in(A, r, m); auto want = refe(m.data(), n); size_t es = C::encode_size(p, n); if (es < want.size()) fail("encode_size below what is written");
        u8* o = O.out(r, es, pos()); size_t g;
        switch (r.below(3)) { case 0: g = mp::codec::encode<C>(p, n, o); break; case 1: g = C::encode(p, n, o); break; default: { cview c{p, n}; mview v{o, es}; g = mp::codec::encode<C>(c, v); } }
        O.check(g, "encode"); check_eq(o, g, want.data(), want.size(), "encoded");
    });
    auto dec = [&](rng& r, const bytes& t)
    {
        const u8* p = in(A, r, t); size_t ds = C::decode_size(p, t.size()), n = t.size(); u8* o = O.out(r, ds, pos()); size_t g; milo::error e; current("%s decode %s", nm, hex(t).c_str());
        switch (r.below(3)) { case 0: g = mp::codec::decode<C>(p, n, o, e); break; case 1: g = C::decode(p, n, o, e); break; default: { cview c{p, n}; mview v{o, ds}; g = mp::codec::decode<C>(c, v, e); } }
        O.check(g, "decode"); eval(sigs({n, sig_of(t.data(), n)})); count(e ? "decode_errors" : "decoded");
    };
    sweep(strf("%s.decode", nm).c_str(), 300, tier(10, 60), tier(6000, 80000), 20000, [&](rng& r, size_t n) { bytes m = r.vec(n); auto w = refe(m.data(), n); bytes t(w.begin(), w.end()); dec(r, t); if (!t.empty()) { t[r.below(t.size())] = u8(r.next()); dec(r, t); t.resize(r.below(t.size() + 1)); dec(r, t); } });
    // texts of few different characters, so that padding occurs in every place
    cases(strf("C14.%s.pad", nm).c_str(), tier(20000, 300000), [&](rng& r, u64) { bytes t(r.below(14)); static const char al[] = "A/9f=="; for (auto& c : t) c = u8(al[r.below(6)]); dec(r, t); });
}
int main()
{
    init();
    #if PART == 0
    hash_part<ref::SHA1>(); hash_part<ref::SHA224>(); hash_part<ref::SHA256>();
    #elif PART == 1
    hash_part<ref::SHA384>(); hash_part<ref::SHA512>(); hash_part<ref::SHA512_224>(); hash_part<ref::SHA512_256>();
    #elif PART == 2
    poly_part(); cipher_part();
    #elif PART == 3
    aead_part();
    #else
    codec_one<prim::b16>("base16", ref::b16e); codec_one<prim::b64>("base64", ref::b64e);
    #endif
    return finish();
}
