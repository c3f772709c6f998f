// C23: what one translation unit of a generated program does with the headers it has included (HAVE_x), at every moment of the life of the program.
#include "../ref.h"
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <span>
#include <stdio.h>
#include <unistd.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" void prog_note(int tu, const char* moment, const char* what, int good);
namespace
{
    using ref::u8; using ref::u64; using ref::bytes;
    struct gen { u64 s; u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dull >> 20; } size_t below(size_t n) { return n ? size_t(next() % n) : 0; } bytes get(size_t n) { bytes b(n); for (auto& x : b) x = u8(next()); return b; } };
    template<class C> bool same(const C& c, const bytes& b) { if (size_t(c.size()) != b.size()) return false; size_t i = 0; for (auto x : c) if (u8(x) != b[i++]) return false; return true; }
    #if HAVE_hash || HAVE_hmac || HAVE_hkdf || HAVE_pbkdf
    template<class F> void each_hash(F&& f)
    {
        namespace h = milo::primitive::hash; f(h::sha_1_160<>(), ref::SHA1); f(h::sha_2_224<>(), ref::SHA224); f(h::sha_2_256<>(), ref::SHA256); f(h::sha_2_384<>(), ref::SHA384); f(h::sha_2_512<>(), ref::SHA512); f(h::sha_2_512_224<>(), ref::SHA512_224); f(h::sha_2_512_256<>(), ref::SHA512_256);
    }
    #endif
    #if HAVE_hash
    bool t_hash(gen& g)
    {
        bool ok = true;
        each_hash([&](auto h, ref::alg a) { using H = decltype(h); namespace p = milo::primitive::hash; bytes m = g.get(g.below(300)), w = ref::hash(a, m.data(), m.size()); ok &= same(p::digest<H>(m), w); u8 o[64]; p::digest<H>(m.data(), m.size(), o); ok &= !memcmp(o, w.data(), w.size()); p::apie<H> x; size_t c = g.below(m.size() + 1); x.update(m.data(), c); auto y = x; y.update(std::string(reinterpret_cast<char*>(m.data()) + c, m.size() - c)); ok &= same(y.digest(), w); });
        return ok;
    }
    #endif
    #if HAVE_hashtest
    bool t_hashtest(gen& g) { bytes m = g.get(g.below(200)); return milo::primitive::hash::test::digest<milo::primitive::hash::sha_2_256<>>(m, ref::hash(ref::SHA256, m.data(), m.size())); }
    #endif
    #if HAVE_hmac
    bool t_hmac(gen& g)
    {
        bool ok = true;
        each_hash([&](auto h, ref::alg a) { using M = milo::primitive::mac::hmac<decltype(h)>; namespace p = milo::primitive::mac; bytes k = g.get(g.below(200)), m = g.get(g.below(300)), w = ref::hmac(a, k.data(), k.size(), m.data(), m.size()); ok &= same(p::digest<M>(k, m), w); p::apie<M> x(k); x.update(m); ok &= same(x.digest(), w); });
        return ok;
    }
    #endif
    #if HAVE_poly
    bool t_poly(gen& g) { using M = milo::primitive::mac::poly_1305<>; namespace p = milo::primitive::mac; bytes k = g.get(32), m = g.get(g.below(300)), w = ref::poly1305(k.data(), m.data(), m.size()); bool ok = same(p::digest<M>(k, m), w); p::apie<M> x(k); size_t c = g.below(m.size() + 1); x.update(m.data(), c); x.update(m.data() + c, m.size() - c); return ok && same(x.digest(), w); }
    #endif
    #if HAVE_hkdf
    bool t_hkdf(gen& g)
    {
        bool ok = true;
        each_hash([&](auto h, ref::alg a) { using K = milo::primitive::kdf::hkdf<milo::primitive::mac::hmac<decltype(h)>>; namespace p = milo::primitive::kdf; bytes i = g.get(g.below(100)), s = g.get(g.below(100)), f = g.get(g.below(50)); size_t n = 1 + g.below(150); bytes w = ref::hkdf(a, i.data(), i.size(), s.data(), s.size(), f.data(), f.size(), n); ok &= same(p::derive<K>(i, s, f, n), w); p::apie<K> x(i, s, f); ok &= same(x.derive(n), w); });
        return ok;
    }
    #endif
    #if HAVE_pbkdf
    bool t_pbkdf(gen& g)
    {
        bool ok = true;
        each_hash([&](auto h, ref::alg a) { using K = milo::primitive::kdf::pbkdf_2<milo::primitive::mac::hmac<decltype(h)>>; namespace p = milo::primitive::kdf; bytes i = g.get(g.below(100)), s = g.get(g.below(100)); unsigned it = unsigned(1 + g.below(3)); size_t n = 1 + g.below(100); bytes w = ref::pbkdf2(a, i.data(), i.size(), s.data(), s.size(), it, n); ok &= same(p::derive<K>(i, s, it, n), w); p::apie<K> x(i, s, it); ok &= same(x.derive(n), w); });
        return ok;
    }
    #endif
    #if HAVE_cipher
    bool t_cipher(gen& g)
    {
        using C = milo::primitive::cipher::chacha_20<>; namespace p = milo::primitive::cipher; bytes k = g.get(32), v = g.get(16), m = g.get(g.below(900)), w(m.size()); ref::chacha_xor(k.data(), ref::u32(v[0] | v[1] << 8 | v[2] << 16) | ref::u32(v[3]) << 24, v.data() + 4, m.data(), m.size(), w.data());
        bool ok = same(p::encrypt<C>(k, v, m), w) && same(p::decrypt<C>(k, v, w), m); p::apie<C> x(k, v); bytes o(m.size()); size_t c = g.below(m.size() + 1); x.encrypt(m.data(), c, o.data()); auto y = x; y.encrypt(m.data() + c, m.size() - c, o.data() + c); return ok && same(o, w);
    }
    #endif
    #if HAVE_aead
    bool t_aead(gen& g)
    {
        using C = milo::primitive::aead::chacha_20_poly_1305<>; namespace p = milo::primitive::aead; bytes k = g.get(32), v = g.get(12), a = g.get(g.below(50)), m = g.get(g.below(600)); auto w = ref::aead_seal(k.data(), v.data(), a.data(), a.size(), m.data(), m.size());
        auto [ct, tag] = p::encrypt<C>(k, v, a, m); bool ok = same(ct, w.ct) && same(tag, w.tag) && same(p::decrypt<C>(k, v, a, ct, tag), m); tag.data()[g.below(16)] ^= 1; bool threw = false; try { (void)p::decrypt<C>(k, v, a, ct, tag); } catch (const milo::error& e) { threw = e == milo::error::aead_verify; }
        milo::error e; bytes o(m.size()); p::decrypt<C>(k, v, a, w.ct, w.tag, o, e); return ok && threw && !e && same(o, m);
    }
    #endif
    #if HAVE_codec
    bool t_codec(gen& g)
    {
        namespace p = milo::primitive::codec; using A = p::base_16<>; using B = p::base_64<>; bytes m = g.get(g.below(100)); auto a = ref::b16e(m.data(), m.size()), b = ref::b64e(m.data(), m.size()); bool ok = same(p::encode<A>(m), bytes(a.begin(), a.end())) && same(p::encode<B>(m), bytes(b.begin(), b.end())) && same(p::decode<A>(a), m) && same(p::decode<B>(b), m);
        bool threw = false; try { (void)p::decode<B>(std::string("A!==")); } catch (const milo::error& e) { threw = e == milo::error::codec_base_64_decode; } return ok && threw;
    }
    #endif
    #if HAVE_literal
    bool t_literal(gen&)
    {
        using namespace milo::literal; const auto lit = "00ff7F"_base_16; static const u8 x[] = {0, 255, 127}; return same(lit, bytes(x, x + 3)) && same("AP9/"_base_64, bytes(x, x + 3)) && same("abc"_b, bytes{'a', 'b', 'c'}) && same("abc"_bv, bytes{'a', 'b', 'c'}) && same("abc"_c, bytes{'a', 'b', 'c'}) && same("abc"_cv, bytes{'a', 'b', 'c'});
    }
    #endif
    #if HAVE_error
    bool t_error(gen&) { milo::error a, b(milo::error::size); bool ok = !a && b && b == milo::error::size; a = b; ok &= bool(a); a.clear(); try { throw b; } catch (const milo::error& e) { ok &= e == milo::error::size; } return ok && !a; }
    #endif
    #if HAVE_def
    bool t_def(gen&) { return std::string(MILO_NAME) == "milo" && std::string(MILO_VERSION_SEMANTIC) == std::to_string(MILO_VERSION_MAJOR) + "." + std::to_string(MILO_VERSION_MINOR) + "." + std::to_string(MILO_VERSION_PATCH); }
    #endif
    void all(const char* moment, u64 seed)
    {
        gen g{seed * 0x9e3779b97f4a7c15ull | 1}; for (int i = 0; i < 5; i++) g.next(); (void)g;
        #define ONE(X) prog_note(TU, moment, #X, t_##X(g));
        TESTS
        #undef ONE
    }
    struct life { const char* m; u64 s; life(const char* a, u64 b) : m(a), s(b) { all(m, s); } ~life() { all("destructor of an object", s + 1); } };
    __attribute__((init_priority(101 + TU))) life early("object with init priority", SEED + 1);
    life normal("namespace scope object", SEED + 3);
    thread_local life tl("thread local object", SEED + 5);
    template<class T> struct holder { static inline life h{"inline static member", SEED + 7}; };
    [[maybe_unused]] life* const instantiate = &holder<int>::h;
    __attribute__((constructor(101))) void first() { all("constructor function", SEED + 9); }
    __attribute__((constructor)) void second() { all("constructor function", SEED + 10); }
    __attribute__((destructor)) void last() { all("destructor function", SEED + 11); }
    __attribute__((destructor(101))) void verylast() { all("destructor function", SEED + 12); }
    // Objects of the library as globals: used by the initialisers and destroyed with the program.
    #if HAVE_hash
    struct global_hash { milo::primitive::hash::apie<milo::primitive::hash::sha_2_256<>> h; global_hash() { h.update("ab", 2); } ~global_hash() { h.update("c", 1); prog_note(TU, "destructor of a global hash", "hash", same(h.digest(), ref::hash(ref::SHA256, reinterpret_cast<const u8*>("abc"), 3))); } } g_hash;
    milo::primitive::hash::apie<milo::primitive::hash::sha_1_160<>> g_bare;
    struct use_bare { use_bare() { g_bare.update(std::string_view("xyz")); } ~use_bare() { prog_note(TU, "global hash", "hash", same(g_bare.digest(), ref::hash(ref::SHA1, reinterpret_cast<const u8*>("xyz"), 3))); } } g_use_bare;
    const auto g_digest = milo::primitive::hash::digest<milo::primitive::hash::sha_2_512<>>(std::string("global"));
    struct see { see() { prog_note(TU, "global digest", "hash", same(g_digest, ref::hash(ref::SHA512, reinterpret_cast<const u8*>("global"), 6))); } } g_see;
    #endif
    #if HAVE_literal
    using namespace milo::literal; const auto g_literal = "c0ffee"_base_16; struct see2 { see2() { prog_note(TU, "global literal", "literal", same(g_literal, bytes{0xc0, 0xff, 0xee})); } } g_see2;
    #endif
}
// Called from other units and threads.
void CAT(prog_run_, TU)(const char* moment, u64 seed) { (void)&tl.s; static life local("function local object", SEED + 13); (void)&local.s; all(moment, seed); }
#if HAVE_hash
using shared_hash = milo::primitive::hash::apie<milo::primitive::hash::sha_2_384<>>;
shared_hash CAT(prog_hash_, TU)(shared_hash x, const bytes& m) { x.update(m); return x; }
#endif
#if HAVE_aead
using shared_aead = milo::primitive::aead::apie<milo::primitive::aead::chacha_20_poly_1305<>>;
void CAT(prog_aead_, TU)(shared_aead& x, const bytes& m, bytes& o) { size_t n = o.size(); o.resize(n + m.size()); x.encrypt(m.data(), m.size(), o.data() + n); }
#endif
