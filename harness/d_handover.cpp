// C13: objects that begin their work in a constant expression and continue at run time, against objects that do all of it at run time.
// (Key derivations own memory in a constant expression and cannot leave it.)
#include "kinds.h"
using namespace vh;
using namespace kd;
#ifndef PART
#define PART 0
#endif
#ifndef SEEDV
#define SEEDV 1
#endif
#ifndef N_HIST
#define N_HIST 2
#endif
struct crng
{
    u64 s; constexpr explicit crng(u64 a) : s(a * 0x9e3779b97f4a7c15ull + SEEDV * 0xd1342543de82ef95ull + 77) { next(); next(); }
    constexpr u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dull >> 16; }
    constexpr u64 below(u64 n) { return n ? next() % n : 0; }
    template<class T, size_t N> constexpr std::array<T, N> arr() { std::array<T, N> a{}; for (auto& x : a) x = T(u8(next())); return a; }
};
// Inputs an object may keep a view of: they live as long as the program.
template<class T, u64 S> inline constexpr auto POOL = crng(S).arr<T, 160>();
constexpr size_t OPS = 6;
struct sink { u8 b[6000]{}; size_t n = 0; template<class P> constexpr void put(const P* p, size_t k) { for (size_t i = 0; i < k && n < sizeof b; i++) b[n++] = u8(p[i]); } constexpr void num(u64 x) { u8 v[2] = {u8(x), u8(x >> 8)}; put(v, 2); } };
template<class W> struct work { W w; sink o; };

template<int Q> using byte_t = std::tuple_element_t<Q % 3, std::tuple<uc, char, sc>>;

// Each kind: how an object begins, and what it does in step k of history S. The last step asks for the result.
template<class H, class TI, class TO, u64 S> struct hash_k
{
    using W = mp::hash::apie<H>; static constexpr W begin() { return W(); }
    static constexpr void step(work<W>& x, size_t k)
    {
        crng r(S * 64 + k); constexpr size_t D = H::digest_size; if (k + 1 < OPS) { x.w.update(POOL<TI, S>.data(), r.below(r.below(3) ? 30 : 160)); return; }
        std::array<TO, D> d{}; x.w.digest(d.data(), D - r.below(3)); x.o.put(d.data(), D);
    }
};
template<class M, class TI, class TO, u64 S> struct mac_k
{
    using W = mp::mac::apie<M>; static constexpr W begin() { crng r(S); return W(POOL<TO, S>.data(), M::key_size ? M::key_size - r.below(2) * r.below(20) : r.below(150)); }
    static constexpr void step(work<W>& x, size_t k)
    {
        crng r(S * 64 + k); constexpr size_t D = M::digest_size; if (k + 1 < OPS) { x.w.update(POOL<TI, S>.data(), r.below(r.below(3) ? 30 : 160)); return; }
        std::array<TO, D> d{}; x.w.digest(d.data(), D - r.below(3)); x.o.put(d.data(), D);
    }
};
template<class C, class T, class TO, u64 S> struct cipher_k
{
    using W = mp::cipher::apie<C>;
    static constexpr W begin() { auto v = crng(S).arr<TO, 16>(); if (S % 2) { for (size_t i = 1; i < 4; i++) v[i] = TO(0xff); v[0] = TO(0xfc); } return W(POOL<T, S>.data(), 32, v.data(), 16); }
    static constexpr void step(work<W>& x, size_t k)
    {
        crng r(S * 64 + k); size_t n = r.below(4) == 0 ? r.below(700) : r.below(3) ? r.below(30) : 64 * r.below(4); std::array<T, 700> m{}; for (auto& c : m) c = T(u8(r.next())); std::array<TO, 700> d{};
        if (r.below(2)) x.w.encrypt(m.data(), n, d.data()); else x.w.decrypt(m.data(), n, d.data()); x.o.put(d.data(), n);
    }
};
template<class C, class T, class TO, u64 S> struct aead_k
{
    using W = mp::aead::apie<C>;
    static constexpr W begin() { auto v = crng(S).arr<TO, 12>(); return W(POOL<T, S>.data(), 32, v.data(), 12); }
    static constexpr void step(work<W>& x, size_t k)
    {
        crng r(S * 64 + k);
        if (k < S % 3) { x.w.aad(POOL<TO, S>.data(), r.below(40)); return; }
        if (k + 1 < OPS)
        {
            size_t n = r.below(4) == 0 ? r.below(600) : r.below(40); std::array<T, 600> m{}; for (auto& c : m) c = T(u8(r.next())); std::array<TO, 600> d{};
            if (S % 2) x.w.encrypt(m.data(), n, d.data()); else x.w.decrypt(m.data(), n, d.data());
            x.o.put(d.data(), n); return;
        }
        std::array<TO, 16> t{}; x.w.digest(t.data(), 16); x.o.put(t.data(), 16); t[r.below(16)] ^= TO(r.below(2)); milo::error e; x.w.verify(t.data(), 16, e); x.o.num(u64(milo::error::code(e)));
    }
};

template<class K> __attribute__((noinline)) static void all(work<typename K::W>& x, size_t from) { for (size_t k = from; k < OPS; k++) K::step(x, k); }
static u64 idx = 0;
template<class K, size_t B> static void judge(const char* name, int hist)
{
    using X = work<typename K::W>;
    static constexpr auto make = [] { X x{K::begin(), {}}; for (size_t k = 0; k < B; k++) K::step(x, k); return x; };
    static constexpr X c = make();            // a constant: continued in copies
    static constinit X g = make();            // a variable with that constant as its initial value: continued itself
    current("%s, history %d, %zu steps in a constant", name, hist, B); idx++;
    X want{K::begin(), {}}; all<K>(want, 0);
    auto same = [&](const X& x, const char* how) { count("continued_objects"); count("bytes_compared", want.o.n); if (x.o.n != want.o.n || memcmp(x.o.b, want.o.b, want.o.n)) fail(strf("%s, history %d: the object made in a constant expression after %zu of %zu steps, then %s, gives %s instead of %s", name, hist, B, OPS, how, hex(x.o.b, std::min<size_t>(x.o.n, 96)).c_str(), hex(want.o.b, std::min<size_t>(want.o.n, 96)).c_str())); };
    X y(c); all<K>(y, B); same(y, "copied and continued");
    X z{K::begin(), {}}; all<K>(z, 3); z = c; all<K>(z, B); same(z, "assigned to a used object and continued");
    all<K>(g, B); same(g, "continued");
    eval(sigs({sig_of(name, strlen(name)), u64(hist), u64(B), sig_of(want.o.b, want.o.n)})); if (idx < 5) sample(strf("%s history %d: %zu steps in a constant, %zu bytes of results", name, hist, B, want.o.n));
}
template<int N, class F> void times(F&& f) { [&]<int... I>(std::integer_sequence<int, I...>) { (f(std::integral_constant<int, I>{}), ...); }(std::make_integer_sequence<int, N>{}); }
// Every history broken after no step, after some, and after the last.
template<template<u64> class K, u64 S0> static void histories(const std::string& name)
{
    times<N_HIST>([&](auto i)
    {
        constexpr u64 S = S0 + u64(i) * 7; constexpr size_t B = 1 + crng(S + 5).below(OPS - 2);
        judge<K<S>, B>(name.c_str(), i); judge<K<S>, B + 1>(name.c_str(), i); judge<K<S>, (i % 2 ? OPS : 0)>(name.c_str(), i);
    });
}
template<class H> struct kh { template<u64 S> using k = hash_k<H, byte_t<S>, byte_t<S + 1>, S>; };
template<class M> struct km { template<u64 S> using k = mac_k<M, byte_t<S>, byte_t<S + 1>, S>; };
template<class C> struct kc { template<u64 S> using k = cipher_k<C, byte_t<S>, byte_t<S + 1>, S>; };
template<class C> struct ka { template<u64 S> using k = aead_k<C, byte_t<S>, byte_t<S + 1>, S>; };

int main()
{
    init();
    cases("C13.handover", 1, [&](rng&, u64)
    {
#define EACH(A) prim::hash_backends<ref::A>([&](const char* be, auto t) { using H = typename decltype(t)::type; std::string n = std::string("C13.handover.") + ref::aname(ref::A) + "." + be; (void)n; EACH2 });
#if PART == 0
#define EACH2 histories<kh<H>::template k, 100>(n + ".hash");
    FOR_ALG(EACH)
#elif PART == 1
#define EACH2 if (be[0] == 'a') histories<km<prim::hmac<H>>::template k, 200>(n + ".hmac");
    FOR_ALG(EACH)
    histories<km<prim::poly>::k, 300>("C13.handover.poly");
#else
    prim::cipher_backends([&](const char* be, auto t) { using C = typename decltype(t)::type; histories<kc<C>::template k, 600>(std::string("C13.handover.chacha.") + be); histories<kc<C>::template k, 650>(std::string("C13.handover.chacha.") + be); histories<ka<mp::detail::aead_chacha_20_poly_1305<C, prim::poly>>::template k, 700>(std::string("C13.handover.aead.") + be); });
#endif
    });
    return finish();
}
