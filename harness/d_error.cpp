// C19: how failures are reported, by error object and by exception, and exceptions of containers.
#include "kinds.h"
#include <milo/literal.h>
#include <exception>
#include <stdexcept>
using namespace vh;
using namespace kd;
#ifndef PART
#define PART 0
#endif
static const milo::error::code CODES[] = {milo::error::none, milo::error::size, milo::error::aead_verify, milo::error::codec_base_64_encode, milo::error::codec_base_64_decode, milo::error::codec_base_16_encode, milo::error::codec_base_16_decode};

// ---- verdicts: every open call shape of one operation with one input must tell the same ----
static milo::error::code expect; static const char* opname;
template<class F> void with_error(const char* how, F&& f)
{
    for (auto st : CODES)
    {
        milo::error e(st); current("%s %s, stale code %d", opname, how, int(st));
        try { f(e); } catch (const milo::error& x) { fail(strf("%s %s threw error %d although an error object was passed", opname, how, int(milo::error::code(x)))); continue; } catch (...) { fail(strf("%s %s threw although an error object was passed", opname, how)); continue; }
        if (!(e == expect)) fail(strf("%s %s: error object holds %d instead of %d (it held %d before)", opname, how, int(milo::error::code(e)), int(expect), int(st)));
        if (bool(e) != (expect != milo::error::none)) fail("error as bool");
        count("verdicts_by_object"); eval(sigs({u64(st), u64(expect), sig_of(how, strlen(how)), sig_of(opname, strlen(opname))}));
    }
}
template<bool NOEX, class F> void with_throw(const char* how, F&& f)
{
    current("%s %s, throwing", opname, how); if (NOEX) fail(strf("%s %s can fail and has no error object, but promises not to throw", opname, how));
    bool thrown = false;
    try { f(); } catch (const milo::error& x) { thrown = true; if (!(x == expect) || expect == milo::error::none) fail(strf("%s %s threw error %d instead of %d", opname, how, int(milo::error::code(x)), int(expect))); } catch (...) { thrown = true; fail(strf("%s %s threw something else than an error", opname, how)); }
    if (!thrown && expect != milo::error::none) fail(strf("%s %s did not throw error %d", opname, how, int(expect)));
    count("verdicts_by_exception"); eval(sigs({7, u64(expect), sig_of(how, strlen(how)), sig_of(opname, strlen(opname))}));
}
#define THROWS(HOW, ...) with_throw<noexcept(__VA_ARGS__)>(HOW, [&] { __VA_ARGS__; })

// ---- containers that fail to grow ----
struct boom { u64 id; };
static int64_t fuse = -1; static int fuse_kind = 0; static u64 fuse_id = 0, grown = 0;
static void grow() { grown++; if (fuse < 0) return; if (fuse-- == 0) { switch (fuse_kind) { case 0: throw boom{fuse_id}; case 1: throw std::length_error(strf("%llu", (unsigned long long)fuse_id)); case 2: throw milo::error(milo::error::size); default: throw std::bad_alloc(); } } }
template<class T> struct bdyn : udyn<T> { constexpr void reserve(size_t n) { grow(); udyn<T>::reserve(n); } constexpr void resize(size_t n, T v) { grow(); udyn<T>::resize(n, v); } };
template<bool NOEX, class F> void booms(const char* how, F&& f)
{
    if (NOEX) fail(strf("%s grows a container, but promises not to throw", how));
    fuse = -1; grown = 0; current("%s without failure", how); f(); u64 total = grown; if (!total) { fail(strf("%s never grew its container", how)); return; }
    for (u64 n = 0; n < total; n++) for (int kind = 0; kind < 4; kind++)
    {
        fuse = int64_t(n); fuse_kind = kind; fuse_id = n * 977 + 13; bool got = false; current("%s, growth %llu of %llu fails in way %d", how, (unsigned long long)n, (unsigned long long)total, kind);
        try { f(); }
        catch (const boom& b) { got = kind == 0 && b.id == fuse_id; } catch (const std::length_error& x) { got = kind == 1 && strf("%llu", (unsigned long long)fuse_id) == x.what(); } catch (const milo::error& x) { got = kind == 2 && x == milo::error::size; } catch (const std::bad_alloc&) { got = kind == 3; } catch (...) {}
        if (!got) fail(strf("%s: the exception of the container (growth %llu of %llu) did not reach the caller unchanged", how, (unsigned long long)n, (unsigned long long)total));
        fuse = -1; count("container_exceptions"); eval(sigs({n, u64(kind), sig_of(how, strlen(how))}));
    }
}
#define BOOMS(HOW, ...) booms<noexcept(__VA_ARGS__)>(HOW, [&] { __VA_ARGS__; })
using BD = bdyn<u8>; using BC = bdyn<char>;

template<class C, bool B64> void codec(const char* name)
{
    const auto bad = B64 ? milo::error::codec_base_64_decode : milo::error::codec_base_16_decode; using A = mp::codec::apie<C>; static std::string op; op = std::string(name) + " decode"; opname = op.c_str();
    cases(("C19.codec." + std::string(name)).c_str(), tier(3000, 60000), [&](rng& r, u64 i)
    {
        // canonical texts, and texts that are certainly invalid
        bytes m = r.vec(i % 7 == 0 ? 0 : r.below(60)); std::string t = B64 ? ref::b64e(m.data(), m.size()) : ref::b16e(m.data(), m.size()); bool ok = true;
        if (i % 2) { ok = false; switch (r.below(4)) { case 0: t += 'A'; if (B64) t.insert(0, "A"); break; case 1: if (t.empty()) t = "AAAA"; t[r.below(t.size())] = B64 ? "!-_\n\x80"[r.below(5)] : "gG=/:@`\x80"[r.below(8)]; break; case 2: t = B64 ? "A" : "0"; break; default: t += B64 ? "=AAA" : "0x"; } bytes o; bool can; if (B64 ? ref::b64d(reinterpret_cast<const u8*>(t.data()), t.size(), o, can) : ref::b16d(reinterpret_cast<const u8*>(t.data()), t.size(), o)) ok = true; }
        expect = ok ? milo::error::none : bad; bytes buf(t.size() + 8); std::array<char, 200> fix{}; const char* p = t.data(); size_t n = t.size(); u8* q = buf.data();
        with_error("raw(ptr)", [&](milo::error& e) { C::decode(p, n, q, e); }); with_error("apie(ptr)", [&](milo::error& e) { A::decode(p, n, q, e); }); with_error("free(ptr)", [&](milo::error& e) { mp::codec::decode<C>(p, n, q, e); });
        THROWS("apie(ptr)", A::decode(p, n, q)); THROWS("free(ptr)", mp::codec::decode<C>(p, n, q));
        with_error("apie(dyn)", [&](milo::error& e) { bytes o; A::decode(t, o, e); }); with_error("free(dyn)", [&](milo::error& e) { std::string o("x"); mp::codec::decode<C>(t, o, e); }); with_error("apie(fixed)", [&](milo::error& e) { A::decode(t, fix, e); }); with_error("free(fixed)", [&](milo::error& e) { mp::codec::decode<C>(t, fix, e); }); with_error("free(view)", [&](milo::error& e) { std::span<u8> v(q, buf.size()); mp::codec::decode<C>(t, v, e); });
        bytes o; THROWS("apie(dyn)", A::decode(t, o)); THROWS("free(dyn)", mp::codec::decode<C>(t, o)); THROWS("apie(fixed)", A::decode(t, fix)); THROWS("free(fixed)", mp::codec::decode<C>(t, fix)); std::span<u8> v(q, buf.size()); THROWS("free(view)", mp::codec::decode<C>(t, v)); THROWS("apie by value", A::template decode<bytes>(t)); THROWS("free by value", mp::codec::decode<C, std::string>(t)); THROWS("free by default value", mp::codec::decode<C>(t));
        { using namespace milo::literal; if (B64) { THROWS("literal", milo::literal::operator""_base_64(p, n)); } else { THROWS("literal", milo::literal::operator""_base_16(p, n)); } }
        if (i < 2) sample(strf("%s of %zu characters, expected code %d", opname, n, int(expect)));
        if (!ok) return;
        std::string h = std::string(name) + " "; milo::error e; std::string enc = t;
        BOOMS((h + "encode(dyn)").c_str(), [&] { BC c; mp::codec::encode<C>(m, c); }()); { BC c; BD d; BOOMS((h + "apie encode(dyn)").c_str(), A::encode(m, c)); BOOMS((h + "decode(dyn, e)").c_str(), mp::codec::decode<C>(t, d, e)); BOOMS((h + "apie decode(dyn, e)").c_str(), A::decode(t, d, e)); BOOMS((h + "decode(dyn)").c_str(), mp::codec::decode<C>(t, d)); BOOMS((h + "apie decode(dyn)").c_str(), A::decode(t, d)); }
        BOOMS((h + "encode by value").c_str(), mp::codec::encode<C, BC>(m)); BOOMS((h + "apie encode by value").c_str(), A::template encode<BC>(m)); BOOMS((h + "decode by value").c_str(), mp::codec::decode<C, BD>(t)); BOOMS((h + "apie decode by value").c_str(), A::template decode<BD>(t));
    });
}
template<class C> void aead(const char* name)
{
    using A = mp::aead::apie<C>; static std::string ov, od; ov = std::string(name) + " verify"; od = std::string(name) + " decrypt";
    cases(("C19.aead." + std::string(name)).c_str(), tier(2000, 40000), [&](rng& r, u64 i)
    {
        bytes k = r.vec(32), v = r.vec(12), a = r.vec(i % 5 == 0 ? 0 : r.below(50)), m = r.vec(i % 3 == 0 ? 0 : r.below(300)); auto s = ref::aead_seal(k.data(), v.data(), a.data(), a.size(), m.data(), m.size()); bytes c = s.ct, t(s.tag.begin(), s.tag.end()); bool ok = i % 2 == 0; if (!ok) { if (c.empty() || r.chance(2)) t[r.below(16)] ^= u8(1 << r.below(8)); else c[r.below(c.size())] ^= u8(1 << r.below(8)); }
        expect = ok ? milo::error::none : milo::error::aead_verify; bytes buf(m.size() + 1); std::array<sc, 300> fix{}; u8* q = buf.data(); auto P = [](const bytes& b) { return b.data(); };
        opname = ov.c_str(); A w(k, v); w.aad(a); w.decrypt(c.data(), c.size(), q);
        with_error("(ptr)", [&](milo::error& e) { w.verify(t.data(), t.size(), e); }); with_error("(in)", [&](milo::error& e) { w.verify(t, e); }); THROWS("(ptr)", w.verify(t.data(), t.size())); THROWS("(in)", w.verify(t));
        // another verdict of the same object right after it
        { milo::error e(expect); bytes good(16); w.digest(good.data()); w.verify(good, e); if (e) fail("the object's own digest is rejected after a failed verification"); good[0] ^= 1; w.verify(good, e); if (!(e == milo::error::aead_verify)) fail("a wrong digest is accepted after a successful verification"); }
        opname = od.c_str();
        with_error("(ptr)", [&](milo::error& e) { mp::aead::decrypt<C>(P(k), 32, P(v), 12, P(a), a.size(), P(c), c.size(), P(t), 16, q, e); }); with_error("(dyn)", [&](milo::error& e) { bytes o; mp::aead::decrypt<C>(k, v, a, c, t, o, e); }); with_error("(fixed)", [&](milo::error& e) { mp::aead::decrypt<C>(k, v, a, c, t, fix, e); }); with_error("(view)", [&](milo::error& e) { std::span<u8> o(q, buf.size()); mp::aead::decrypt<C>(k, v, a, c, t, o, e); });
        bytes o; std::span<u8> sp(q, buf.size()); THROWS("(ptr)", mp::aead::decrypt<C>(P(k), 32, P(v), 12, P(a), a.size(), P(c), c.size(), P(t), 16, q)); THROWS("(dyn)", mp::aead::decrypt<C>(k, v, a, c, t, o)); THROWS("(fixed)", mp::aead::decrypt<C>(k, v, a, c, t, fix)); THROWS("(view)", mp::aead::decrypt<C>(k, v, a, c, t, sp)); THROWS("by value", mp::aead::decrypt<C, std::string>(k, v, a, c, t)); THROWS("by default value", mp::aead::decrypt<C>(k, v, a, c, t));
        if (i < 2) sample(strf("%s of %zu bytes, expected code %d", opname, c.size(), int(expect)));
        if (!ok) return;
        std::string h = std::string(name) + " "; milo::error e; bytes tag(16);
        { A x(k, v); BD d; BOOMS((h + "encrypt(dyn)").c_str(), x.encrypt(m, d)); BOOMS((h + "decrypt(dyn)").c_str(), x.decrypt(m, d)); BOOMS((h + "encrypt by value").c_str(), x.template encrypt<BC>(m)); BOOMS((h + "decrypt by value").c_str(), x.template decrypt<BC>(m)); BOOMS((h + "digest(dyn)").c_str(), x.digest(d)); BOOMS((h + "digest(dyn, n)").c_str(), x.digest(d, 9)); BOOMS((h + "digest by value").c_str(), x.template digest<BD>(11)); }
        { BD d; BC f; std::array<u8, 16> ft; std::array<u8, 300> fx; BOOMS((h + "one-shot encrypt(dyn, dyn)").c_str(), mp::aead::encrypt<C>(k, v, a, m, d, f)); BOOMS((h + "one-shot encrypt(dyn, fixed)").c_str(), mp::aead::encrypt<C>(k, v, a, m, d, ft)); BOOMS((h + "one-shot encrypt(fixed, dyn)").c_str(), mp::aead::encrypt<C>(k, v, a, m, fx, f)); BOOMS((h + "one-shot encrypt by value").c_str(), mp::aead::encrypt<C, BD>(k, v, a, m));
          BOOMS((h + "one-shot decrypt(dyn, e)").c_str(), mp::aead::decrypt<C>(k, v, a, c, t, d, e)); BOOMS((h + "one-shot decrypt(dyn)").c_str(), mp::aead::decrypt<C>(k, v, a, c, t, d)); BOOMS((h + "one-shot decrypt by value").c_str(), mp::aead::decrypt<C, BC>(k, v, a, c, t)); }
    });
}
template<class F> void too_long(const char* how, F&& f)
{
    bool got = false; current("%s of more bytes than a container can hold", how); try { f(); } catch (const std::length_error&) { got = true; } catch (const std::bad_alloc&) { got = true; } catch (...) {} if (!got) fail(strf("%s: more bytes than the container can hold, and its exception did not arrive", how)); count("container_exceptions");
}
template<class H, ref::alg A> void digests(const char* nm)
{
    using M = mp::mac::hmac<H>; using K = mp::kdf::hkdf<M>; using P = mp::kdf::pbkdf_2<M>; std::string h = std::string(nm) + " ";
    cases(("C19.grow." + std::string(nm)).c_str(), tier(300, 6000), [&](rng& r, u64)
    {
        bytes m = r.vec(r.below(200)), k = r.vec(1 + r.below(200)), s = r.vec(r.below(40)); size_t D = H::digest_size; BD d; BC c;
        { mp::hash::apie<H> w; w.update(m); BOOMS((h + "hash digest(dyn)").c_str(), w.digest(d)); BOOMS((h + "hash digest(dyn, n)").c_str(), w.digest(c, 5)); BOOMS((h + "hash digest by value").c_str(), w.template digest<BD>(7)); check_eq(get(w.digest()), ref::hash(A, m.data(), m.size()), "digest after failures to grow"); }
        BOOMS((h + "hash one-shot(dyn)").c_str(), mp::hash::digest<H>(m, d)); BOOMS((h + "hash one-shot(dyn, n)").c_str(), mp::hash::digest<H>(m, c, 9)); BOOMS((h + "hash one-shot by value").c_str(), mp::hash::digest<H, BC>(m, 9));
        { mp::mac::apie<M> w(k); w.update(m); BOOMS((h + "hmac digest(dyn)").c_str(), w.digest(d)); BOOMS((h + "hmac digest(dyn, n)").c_str(), w.digest(c, 5)); BOOMS((h + "hmac digest by value").c_str(), w.template digest<BD>(7)); check_eq(get(w.digest()), ref::hmac(A, k.data(), k.size(), m.data(), m.size()), "tag after failures to grow"); }
        BOOMS((h + "hmac one-shot(dyn)").c_str(), mp::mac::digest<M>(k, m, d)); BOOMS((h + "hmac one-shot(dyn, n)").c_str(), mp::mac::digest<M>(k, m, c, 9)); BOOMS((h + "hmac one-shot by value").c_str(), mp::mac::digest<M, BC>(k, m, 9));
        { mp::kdf::apie<K> w(k, s, m); BOOMS((h + "hkdf derive(dyn)").c_str(), w.derive(d, D)); BOOMS((h + "hkdf derive by value").c_str(), w.template derive<BC>(5)); } BOOMS((h + "hkdf one-shot(dyn)").c_str(), mp::kdf::derive<K>(k, s, m, d, 40)); BOOMS((h + "hkdf one-shot by value").c_str(), mp::kdf::derive<K, BD>(k, s, m, 40));
        { mp::kdf::apie<P> w(k, s, 2u); BOOMS((h + "pbkdf2 derive(dyn)").c_str(), w.derive(d, D)); BOOMS((h + "pbkdf2 derive by value").c_str(), w.template derive<BC>(5)); } BOOMS((h + "pbkdf2 one-shot(dyn)").c_str(), mp::kdf::derive<P>(k, s, 2u, d, 40)); BOOMS((h + "pbkdf2 one-shot by value").c_str(), mp::kdf::derive<P, BD>(k, s, 2u, 40));
        too_long("hkdf one-shot by value", [&] { (void)mp::kdf::derive<K, std::string>(k, s, m, size_t(-1) - r.below(5)); }); too_long("pbkdf2 one-shot(dyn)", [&] { std::vector<char> o; mp::kdf::derive<P>(k, s, 1u, o, size_t(-1) - r.below(5)); }); too_long("hkdf derive by value", [&] { mp::kdf::apie<K> w(k, s, m); (void)w.derive(size_t(-1) - r.below(5)); });
    });
}
int main()
{
    init();
    cases("C19.class", 49, [&](rng&, u64 i)
    {
        auto a = CODES[i % 7], b = CODES[i / 7]; milo::error e(a), f(b); if (bool(e) != (a != milo::error::none) || milo::error::code(e) != a || (e == b) != (a == b)) fail("state of an error"); e = f; if (!(e == b)) fail("assignment"); milo::error g(e); if (!(g == b)) fail("copy"); e.clear(); if (e || !(e == milo::error::none)) fail("clear"); milo::error z; if (z) fail("default"); try { throw f; } catch (const milo::error& x) { if (!(x == b)) fail("thrown copy"); } eval(i);
    });
    #if PART == 0
    codec<prim::b16, false>("base16"); codec<prim::b64, true>("base64");
    #elif PART == 1
    prim::aead_backends([&](const char* n, auto t) { aead<typename decltype(t)::type>(strf("aead.%s", n).c_str()); });
    prim::cipher_backends([&](const char* n, auto t)
    {
        using C = typename decltype(t)::type; std::string h = std::string("cipher.") + n + " ";
        cases(("C19.grow.cipher." + std::string(n)).c_str(), tier(300, 6000), [&](rng& r, u64)
        {
            bytes k = r.vec(32), v = r.vec(16), m = r.vec(1 + r.below(700)); BD d; BC c; mp::cipher::apie<C> w(k, v); BOOMS((h + "encrypt(dyn)").c_str(), w.encrypt(m, d)); BOOMS((h + "decrypt(dyn)").c_str(), w.decrypt(m, c)); BOOMS((h + "encrypt by value").c_str(), w.template encrypt<BD>(m)); BOOMS((h + "decrypt by value").c_str(), w.template decrypt<BC>(m));
            BOOMS((h + "one-shot encrypt(dyn)").c_str(), mp::cipher::encrypt<C>(k, v, m, d)); BOOMS((h + "one-shot decrypt(dyn)").c_str(), mp::cipher::decrypt<C>(k, v, m, c)); BOOMS((h + "one-shot encrypt by value").c_str(), mp::cipher::encrypt<C, BD>(k, v, m)); BOOMS((h + "one-shot decrypt by value").c_str(), mp::cipher::decrypt<C, BC>(k, v, m));
        });
    });
    cases("C19.grow.poly", tier(300, 6000), [&](rng& r, u64) { using M = prim::poly; bytes k = r.vec(32), m = r.vec(r.below(200)); BD d; BC c; mp::mac::apie<M> w(k); w.update(m); BOOMS("poly digest(dyn)", w.digest(d)); BOOMS("poly digest(dyn, n)", w.digest(c, 5)); BOOMS("poly digest by value", w.digest<BD>(7)); check_eq(get(w.digest()), ref::poly1305(k.data(), m.data(), m.size()), "tag after failures to grow"); BOOMS("poly one-shot(dyn)", mp::mac::digest<M>(k, m, d)); BOOMS("poly one-shot(dyn, n)", mp::mac::digest<M>(k, m, c, 9)); BOOMS("poly one-shot by value", mp::mac::digest<M, BC>(k, m, 9)); });
    #else
    #define D(A) digests<typename prim::hash_of<ref::A>::any, ref::A>(ref::aname(ref::A));
    FOR_ALG(D)
    #endif
    return finish();
}
