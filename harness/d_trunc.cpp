// C18: how much of a digest is written, for every requested size, every fixed size and every kind of output.
#include "kinds.h"
#include <milo/option.h>
using namespace vh;
using namespace kd;
#ifndef PART
#define PART 0
#endif

// A subject holds the inputs, the full tag, and the ways to ask for it.
template<class H, ref::alg A> struct hash_s
{
    static constexpr size_t D = H::digest_size; bytes m, want; using W = mp::hash::apie<H>;
    explicit hash_s(rng& r) : m(r.vec(r.len(300))), want(ref::hash(A, m.data(), m.size())) {}
    W apie() const { W w; w.update(m); return w; }
    H raw() const { H h; h.initialize(); h.update(m.data(), m.size()); h.finalize(); return h; }
    template<class T> size_t ptr(T* o) const { return mp::hash::digest<H>(m.data(), m.size(), o); }
    template<class T> size_t ptr(T* o, size_t n) const { return mp::hash::digest<H>(m.data(), m.size(), o, n); }
    template<class T> size_t out(T& o) const { return mp::hash::digest<H>(m, o); }
    template<class T> size_t out(T& o, size_t n) const { return mp::hash::digest<H>(m, o, n); }
    template<class T> T val(size_t n) const { return mp::hash::digest<H, T>(m, n); }
    auto val_default(size_t n) const { return mp::hash::digest<H>(m, n); }
    template<class T> T val() const { return mp::hash::digest<H, T>(m); }
    auto val_default() const { return mp::hash::digest<H>(m); }
};
template<class M, class REF> struct mac_s
{
    static constexpr size_t D = M::digest_size; bytes k, m, want; using W = mp::mac::apie<M>;
    explicit mac_s(rng& r) : k(r.vec(M::key_size ? M::key_size : r.below(200))), m(r.vec(r.len(300))), want(REF::f(k, m)) {}
    W apie() const { W w(k); w.update(m); return w; }
    M raw() const { M h; h.initialize(k.data(), k.size()); h.update(m.data(), m.size()); h.finalize(); return h; }
    template<class T> size_t ptr(T* o) const { return mp::mac::digest<M>(k.data(), k.size(), m.data(), m.size(), o); }
    template<class T> size_t ptr(T* o, size_t n) const { return mp::mac::digest<M>(k.data(), k.size(), m.data(), m.size(), o, n); }
    template<class T> size_t out(T& o) const { return mp::mac::digest<M>(k, m, o); }
    template<class T> size_t out(T& o, size_t n) const { return mp::mac::digest<M>(k, m, o, n); }
    template<class T> T val(size_t n) const { return mp::mac::digest<M, T>(k, m, n); }
    auto val_default(size_t n) const { return mp::mac::digest<M>(k, m, n); }
    template<class T> T val() const { return mp::mac::digest<M, T>(k, m); }
    auto val_default() const { return mp::mac::digest<M>(k, m); }
};
template<class C> struct aead_s
{
    static constexpr size_t D = C::digest_size; bytes k, v, a, m, want; mutable bytes ct; using W = mp::aead::apie<C>;
    explicit aead_s(rng& r) : k(r.vec(32)), v(r.vec(12)), a(r.vec(r.below(60))), m(r.vec(r.len(300))) { auto s = ref::aead_seal(k.data(), v.data(), a.data(), a.size(), m.data(), m.size()); want = bytes(s.tag.begin(), s.tag.end()); ct.resize(m.size()); }
    W apie() const { W w(k, v); w.aad(a); w.encrypt(m.data(), m.size(), ct.data()); return w; }
    C raw() const { C h; h.initialize(k.data(), 32, v.data(), 12); h.aad(a.data(), a.size()); h.encrypt(m.data(), m.size(), ct.data()); h.finalize(); return h; }
    template<class T> size_t ptr(T* o) const { auto [x, y] = mp::aead::encrypt<C>(k.data(), 32, v.data(), 12, a.data(), a.size(), m.data(), m.size(), ct.data(), o); if (x != m.size()) fail("size of text"); return y; }
    template<class T> size_t out(T& o) const { auto [x, y] = mp::aead::encrypt<C>(k, v, a, m, ct, o); if (x != m.size()) fail("size of text"); return y; }
};

static size_t pick(rng& r, size_t D) { switch (r.below(10)) { case 0: return D; case 1: return D + 1 + r.below(100); case 2: return size_t(-1) - r.below(3); case 3: return 0; case 4: return D ? D - 1 : 0; case 5: return (size_t(1) << 32) + r.below(D); default: return r.below(D + 4); } }
static bytes pre(const bytes& w, size_t n) { return bytes(w.begin(), w.begin() + long(n)); }

// One output through a callable that writes to a container of kind T; st is the size it has before.
template<class T, class F> void one(rng& r, const bytes& want, size_t D, size_t req, size_t st, const char* how, F&& f)
{
    if constexpr (resizes<T>)
    {
        hold<T> o(r.vec(st)); size_t n = f(o.v), e = std::min(req, D); if (n != e) fail(strf("%s of a growing container, %zu requested: returned %zu instead of %zu", how, req, n, e));
        if (o.v.size() != e) fail(strf("%s of a growing container of %zu bytes, %zu requested: resized to %zu instead of %zu", how, st, req, size_t(o.v.size()), e)); else check_eq(o.get(), pre(want, e), how);
    }
    else
    {
        // views show memory between canaries, arrays lie between them
        using V = std::remove_const_t<typename T::value_type>; bytes before = r.vec(st); size_t off = r.below(16); canary c(r, st + 64, off); memcpy(c.p(), before.data(), st); u8* base = c.p(); size_t n;
        if constexpr (requires(V* p) { T(p, st); } || requires(V* p) { T{p, st}; }) { if constexpr (has_extent<T>) { T v(reinterpret_cast<V*>(base), T::extent); n = f(v); } else { T v{reinterpret_cast<V*>(base), st}; n = f(v); } }
        else { T* v = reinterpret_cast<T*>(base); static_assert(alignof(T) == 1 && std::is_trivially_copyable_v<T>); n = f(*v); }
        size_t e = std::min({req, D, st}); if (n != e) fail(strf("%s of %zu fixed bytes, %zu requested: returned %zu instead of %zu", how, st, req, n, e));
        bytes got(base, base + st), w = before; memcpy(w.data(), want.data(), e); check_eq(got, w, strf("%s into %zu fixed bytes, %zu requested", how, st, req).c_str()); if (!c.ok(st)) fail(strf("%s into %zu fixed bytes, %zu requested: wrote past the container", how, st, req));
    }
}
template<class S, class T> void kinds_of(rng& r, const S& s, typename S::W& w, size_t st)
{
    size_t D = S::D, q = pick(r, D); current("D=%zu container %zu requested %zu", D, st, q);
    one<T>(r, s.want, D, D, st, "digest(out)", [&](T& o) { return w.digest(o); });
    one<T>(r, s.want, D, q, st, "digest(out, n)", [&](T& o) { return w.digest(o, q); });
    one<T>(r, s.want, D, D, st, "one-shot (out)", [&](T& o) { return s.out(o); });
    if constexpr (requires(T& t) { s.out(t, q); }) one<T>(r, s.want, D, q, st, "one-shot (out, n)", [&](T& o) { return s.out(o, q); });
    count("outputs_checked", 4); eval(sigs({D, st, q, resizes<T>}));
}
template<class S, size_t N> void fixed_of(rng& r, const S& s, typename S::W& w)
{
    kinds_of<S, std::array<char, N>>(r, s, w, N); kinds_of<S, std::array<u8, N>>(r, s, w, N); kinds_of<S, ustat<sc, N>>(r, s, w, N); kinds_of<S, std::span<u8, N>>(r, s, w, N); kinds_of<S, milo::container::bytes_static<N>>(r, s, w, N);
}
template<class S, size_t N> void by_value(rng& r, const S& s, typename S::W& w)
{
    (void)r;
    if constexpr (N >= 1 && N <= S::D)
    {
        check_eq(get(w.template digest<std::array<char, N>>()), pre(s.want, N), "digest<static>()"); check_eq(get(w.template digest<ustat<u8, N>>()), pre(s.want, N), "digest<static>()");
        if constexpr (requires { s.template val<std::array<sc, N>>(); }) check_eq(get(s.template val<std::array<sc, N>>()), pre(s.want, N), "one-shot <static>");
        count("outputs_checked", 3);
    }
    // more than the digest can fill is a compile-time error
    if constexpr (N > S::D) { static_assert(!requires(typename S::W& x) { x.template digest<std::array<char, N>>(); }); }
}
template<class S> void trunc(const std::string& name)
{
    constexpr size_t D = S::D;
    cases(("C18." + name).c_str(), tier(400, 8000), [&](rng& r, u64 i)
    {
        S s(r); if (D > s.want.size()) { fail("digest size"); return; }
        auto w = s.apie(); if (r.chance(3)) { auto c = w; (void)c.digest(); }
        // pointers, at every requested size in turn
        for (size_t j = 0; j < 6; j++)
        {
            size_t q = j == 0 ? i % (D + 6) : pick(r, D), e = std::min(q, D); current("pointer D=%zu requested=%zu", D, q);
            auto go = [&](const char* how, size_t want_n, auto f) { canary c(r, D + 32, r.below(16)); size_t n = f(c.p()); if (n != want_n) fail(strf("%s: %zu requested, returned %zu instead of %zu", how, q, n, want_n)); check_eq(c.p(), want_n, s.want.data(), want_n, how); if (!c.ok(want_n)) fail(strf("%s: %zu requested, wrote past %zu bytes", how, q, want_n)); count("outputs_checked"); };
            go("digest(ptr, n)", e, [&](u8* p) { return w.digest(p, q); }); go("digest(ptr)", D, [&](u8* p) { return w.digest(p); });
            auto h = s.raw(); go("raw digest(ptr, n)", e, [&](u8* p) { return h.digest(p, q); }); go("raw digest(ptr)", D, [&](u8* p) { return h.digest(reinterpret_cast<char*>(p)); }); go("raw digest(ptr, n) again", e, [&](u8* p) { return h.digest(p, q); });
            if constexpr (requires(u8* p) { s.ptr(p, q); }) go("one-shot (ptr, n)", e, [&](u8* p) { return s.ptr(reinterpret_cast<sc*>(p), q); });
            go("one-shot (ptr)", D, [&](u8* p) { return s.ptr(p); }); eval(sigs({D, q, 99}));
        }
        // growing containers, from any size
        { size_t st = r.below(2 * D + 10); kinds_of<S, bytes>(r, s, w, st); kinds_of<S, std::string>(r, s, w, st); kinds_of<S, udyn<sc>>(r, s, w, st); kinds_of<S, milo::container::bytes_dynamic>(r, s, w, 0); }
        { size_t q = pick(r, D), e = std::min(q, D); check_eq(get(w.digest(q)), pre(s.want, e), "digest(n)"); check_eq(get(w.template digest<std::string>(q)), pre(s.want, e), "digest<dyn>(n)"); if constexpr (requires { s.val_default(q); }) { check_eq(get(s.val_default(q)), pre(s.want, e), "one-shot (n)"); check_eq(get(s.template val<udyn<u8>>(q)), pre(s.want, e), "one-shot <dyn>(n)"); check_eq(get(s.val_default()), pre(s.want, D), "one-shot ()"); } check_eq(get(w.digest()), pre(s.want, D), "digest()"); count("outputs_checked", 6); }
        // views of any size
        for (int j = 0; j < 3; j++) { size_t st = r.chance(3) ? r.below(D + 1) : r.below(2 * D + 10); kinds_of<S, std::span<u8>>(r, s, w, st); kinds_of<S, std::span<char>>(r, s, w, st); kinds_of<S, uview<sc>>(r, s, w, st); }
        fixed_of<S, 1>(r, s, w); fixed_of<S, D>(r, s, w); fixed_of<S, D + 1>(r, s, w); fixed_of<S, D + 9>(r, s, w); if constexpr (D > 2) { fixed_of<S, D - 1>(r, s, w); fixed_of<S, D / 2>(r, s, w); }
        by_value<S, 1>(r, s, w); by_value<S, D / 2>(r, s, w); by_value<S, D - 1>(r, s, w); by_value<S, D>(r, s, w); by_value<S, D + 1>(r, s, w);
        if (i == 0) sample(strf("%s: %zu byte digest asked for through every shape", name.c_str(), D));
    });
}
template<ref::alg A> struct hmac_ref { static bytes f(const bytes& k, const bytes& m) { return ref::hmac(A, k.data(), k.size(), m.data(), m.size()); } };
struct poly_ref { static bytes f(const bytes& k, const bytes& m) { return ref::poly1305(k.data(), m.data(), m.size()); } };
template<size_t N> using ds = milo::option::digest_size<N>;

int main()
{
    init();
    #define HASH(P, A, T) if constexpr (PART == P) { constexpr size_t F = mp::hash::T<>::digest_size; \
        trunc<hash_s<mp::hash::T<>, ref::A>>("hash." #T); trunc<hash_s<mp::hash::T<ds<1>>, ref::A>>("hash." #T ".1"); trunc<hash_s<mp::hash::T<ds<13>>, ref::A>>("hash." #T ".13"); trunc<hash_s<mp::hash::T<ds<F - 1>>, ref::A>>("hash." #T ".less1"); trunc<hash_s<mp::hash::T<ds<F>>, ref::A>>("hash." #T ".full"); \
        trunc<mac_s<mp::mac::hmac<mp::hash::T<>>, hmac_ref<ref::A>>>("hmac." #T); trunc<mac_s<mp::mac::hmac<mp::hash::T<>, ds<1>>, hmac_ref<ref::A>>>("hmac." #T ".1"); trunc<mac_s<mp::mac::hmac<mp::hash::T<>, ds<11>>, hmac_ref<ref::A>>>("hmac." #T ".11"); trunc<mac_s<mp::mac::hmac<mp::hash::T<>, ds<F - 3>>, hmac_ref<ref::A>>>("hmac." #T ".less3"); }
    HASH(0, SHA1, sha_1_160) HASH(0, SHA224, sha_2_224) HASH(1, SHA256, sha_2_256) HASH(1, SHA384, sha_2_384) HASH(2, SHA512, sha_2_512) HASH(2, SHA512_224, sha_2_512_224) HASH(3, SHA512_256, sha_2_512_256)
    if constexpr (PART == 3)
    {
        trunc<mac_s<mp::mac::poly_1305<>, poly_ref>>("poly"); trunc<mac_s<mp::mac::poly_1305<ds<1>>, poly_ref>>("poly.1"); trunc<mac_s<mp::mac::poly_1305<ds<8>>, poly_ref>>("poly.8"); trunc<mac_s<mp::mac::poly_1305<ds<15>>, poly_ref>>("poly.15");
        trunc<aead_s<mp::aead::chacha_20_poly_1305<>>>("aead"); trunc<aead_s<mp::aead_chacha_20_sw_poly_1305_sw>>("aead.sw");
    }
    return finish();
}
