// C13: constant evaluation against run-time evaluation of the same function, and both against the reference.
#include "kinds.h"
#include <milo/literal.h>
using namespace vh;
using namespace kd;
#ifndef PART
#define PART 0
#endif
#ifndef SEEDV
#define SEEDV 1
#endif
#ifndef N_ONE
#define N_ONE 3
#endif
#ifndef N_HIST
#define N_HIST 3
#endif
struct crng
{
    u64 s; constexpr explicit crng(u64 a) : s(a * 0x9e3779b97f4a7c15ull + SEEDV * 0xd1342543de82ef95ull + 77) { next(); next(); }
    constexpr u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dull >> 16; }
    constexpr u64 below(u64 n) { return n ? next() % n : 0; }
    constexpr u8 byte(unsigned mode) { switch (mode) { case 0: return 0xff; case 1: return 0; case 2: return u8(0x80 | next()); default: return u8(next()); } }
    template<class T, size_t N> constexpr std::array<T, N> arr() { std::array<T, N> a{}; unsigned m = unsigned(below(6)); for (auto& x : a) x = T(byte(m)); return a; }
};
#ifndef LARGE
constexpr size_t CAP = 2048;
#else
constexpr size_t CAP = 24000;
#endif
struct res
{
    u8 b[CAP]{}; size_t n = 0;
    constexpr void add(u8 x) { if (n < CAP) b[n++] = x; }
    constexpr void num(u64 x) { add(u8(x)); add(u8(x >> 8)); add(0xee); }
    template<class P> constexpr void put(const P* p, size_t k) { for (size_t i = 0; i < k; i++) add(u8(p[i])); }
    template<class C> constexpr void all(const C& c) { put(c.data(), c.size()); num(c.size()); }
};
static u64 idx = 0;
template<class F> static void judge(const char* name, const res& ct, F* f, const bytes* want)
{
    F* volatile g = f; current("%s", name); res rt = g(); idx++;
    if (ct.n != rt.n || memcmp(ct.b, rt.b, rt.n)) fail(strf("%s: the constant %s differs from %s at run time", name, hex(ct.b, ct.n).c_str(), hex(rt.b, rt.n).c_str()));
    if (want && (rt.n < want->size() || memcmp(rt.b, want->data(), want->size()))) fail(strf("%s: got %s want %s", name, hex(rt.b, want->size()).c_str(), hex(*want).c_str()));
    count("constants_compared"); count("constant_bytes", ct.n); eval(sigs({sig_of(name, strlen(name)), sig_of(ct.b, ct.n)})); if (idx < 6) sample(strf("%s: %zu bytes of results", name, ct.n));
}
#define RUN(NAME, ...) { static constexpr res ct = __VA_ARGS__(); judge(NAME, ct, &__VA_ARGS__, nullptr); }
#define RUNREF(NAME, WANT, ...) { static constexpr res ct = __VA_ARGS__(); bytes w = WANT; judge(NAME, ct, &__VA_ARGS__, &w); }
template<int N, class F> void times(F&& f) { [&]<int... I>(std::integer_sequence<int, I...>) { (f(std::integral_constant<int, I>{}), ...); }(std::make_integer_sequence<int, N>{}); }
template<class A> bytes B(const A& a) { bytes o; for (auto c : a) o.push_back(u8(c)); return o; }

// A container of kind T with the given elements, for a while.
template<class T, class A, class F> constexpr void with(const A& a, F&& f)
{
    using V = std::remove_const_t<typename T::value_type>; constexpr size_t N = std::tuple_size_v<A>;
    if constexpr (resizes<T>) { T t; t.reserve(N); t.resize(N, V()); for (size_t i = 0; i < N; i++) t.data()[i] = V(a[i]); f(t); }
    else
    {
        std::array<V, N> m{}; for (size_t i = 0; i < N; i++) m[i] = V(a[i]);
        if constexpr (has_extent<T>) { T t(m.data(), T::extent); f(t); }
        else if constexpr (requires { T(m.data(), m.size()); }) { T t(m.data(), N); f(t); }
        else if constexpr (requires { T{m.data(), m.size()}; } && !requires { T{}.a; } && !requires { std::tuple_size<T>::value; }) { T t{m.data(), N}; f(t); }
        else { T t{}; for (size_t i = 0; i < N; i++) t.data()[i] = m[i]; f(t); }
    }
}
constexpr size_t pick_len(int i) { constexpr size_t t[] = {0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 150, 17, 31, 32, 33, 48, 200, 3, 96, 15, 16}; crng r(u64(i) * 31 + 5 + PART * 1009); return i < 2 ? size_t(i) : r.below(3) ? t[r.below(25)] : r.below(220); }
template<int Q> using byte_t = std::tuple_element_t<Q % 3, std::tuple<uc, char, sc>>;

// ---- hash ----
template<class H, size_t N, class TI, class TO, u64 S> constexpr res hash_one()
{
    crng r(S); auto m = r.arr<TI, N>(); res o; constexpr size_t D = H::digest_size; std::array<TO, D> d{}; const TI* p = N ? m.data() : nullptr;
    mp::hash::digest<H>(p, N, d.data()); o.put(d.data(), D); d = {}; size_t k = r.below(D + 4); o.num(mp::hash::digest<H>(p, N, d.data(), k)); o.put(d.data(), D);
    H h; h.initialize(); size_t c = N ? r.below(N + 1) : 0; if (c) h.update(p, c); h.update(p + c, N - c); h.finalize(); d = {}; h.digest(d.data()); o.put(d.data(), D); h.digest(d.data(), k); o.put(d.data(), D);
    mp::hash::apie<H> w; w.update(p, c); auto x = w; x.update(p + c, N - c); d = {}; x.digest(d.data()); o.put(d.data(), D); w.digest(d.data()); o.put(d.data(), D);
    return o;
}
template<class H, int Q, u64 S> constexpr res hash_kind()
{
    constexpr size_t N = 37, D = H::digest_size; crng r(S); auto m = r.arr<uc, N>(); res o; size_t k = r.below(D + 3);
    with<typename in_kind<Q % INS, N>::type>(m, [&](auto& x)
    {
        o.all(mp::hash::digest<H>(x)); o.all(mp::hash::digest<H>(x, k)); mp::hash::apie<H> w; w.update(x); w.update(x); o.all(w.digest()); o.all(w.digest(k));
        using T = typename out_kind<Q % OUTS, D>::type; with<T>(r.arr<uc, D>(), [&](auto& y) { o.num(mp::hash::digest<H>(x, y)); o.all(y); o.num(mp::hash::digest<H>(x, y, k)); o.all(y); w.digest(y); o.all(y); w.digest(y, k); o.all(y); });
        using Y = typename out_kind<Q % DYNS, D>::type; o.all(mp::hash::digest<H, Y>(x, k)); o.all(w.template digest<Y>(k)); using Z = typename out_kind<DYNS + Q % STATS, D>::type; o.all(mp::hash::digest<H, Z>(x)); o.all(w.template digest<Z>());
    });
    return o;
}
// A random history of three objects: use, copy, assign, move, initialise again.
template<class W, class MK, class USE, class FIN> constexpr void history(crng& r, int steps, MK&& mk, USE&& use, FIN&& fin)
{
    W a = mk(), b = mk(), c = mk(); W* v[3] = {&a, &b, &c};
    for (int i = 0; i < steps; i++)
    {
        size_t x = r.below(3), y = r.below(3);
        switch (r.below(8))
        {
            case 0: if (x != y) *v[x] = *v[y]; break;   // clang refuses to assign an array member to itself in a constant
            case 1: { W t(*v[y]); use(t); if (r.below(2)) *v[x] = t; break; }
            case 2: { W t(std::move(*v[y])); *v[y] = t; use(*v[y]); *v[x] = std::move(t); break; }
            case 3: if (x != y) { W t = *v[x]; *v[x] = *v[y]; *v[y] = t; } break;
            case 4: *v[x] = mk(); break;
            default: use(*v[x]);
        }
    }
    for (auto p : v) { use(*p); fin(*p); fin(*p); }
}
template<class H, class TI, class TO, u64 S> constexpr res hash_history()
{
    using W = mp::hash::apie<H>; crng r(S); res o; constexpr size_t D = H::digest_size;
    history<W>(r, 8, [&] { return W(); }, [&](W& w) { auto m = r.arr<TI, 150>(); w.update(m.data(), r.below(r.below(3) ? 40 : 151)); if (!r.below(4)) { w.initialize(); w.update(m.data(), 3); } }, [&](W& w) { std::array<TO, D> d{}; w.digest(d.data(), r.below(3) ? D : r.below(D)); o.put(d.data(), D); });
    return o;
}
template<class H> void hash_const(const char* nm, auto&& refh, u64 base)
{
    times<N_ONE>([&](auto i) { constexpr u64 S = 1000 + u64(i); constexpr size_t N = pick_len(int(i) + 7); RUNREF(strf("hash %s of %zu bytes", nm, N).c_str(), (crng(S).arr<byte_t<i>, N>().size(), refh(B(crng(S).arr<byte_t<i>, N>()))), hash_one<H, N, byte_t<i>, byte_t<i / 3 + 1>, S>) });
    times<N_HIST>([&](auto i) { RUN(strf("history %d of hash %s", int(i), nm).c_str(), hash_history<H, byte_t<i>, byte_t<i + 1>, 2000 + u64(i)>) });
    (void)base;
}

// ---- mac ----
template<class M, size_t KN, size_t N, class TK, class TI, class TO, u64 S> constexpr res mac_one()
{
    crng r(S); auto key = r.arr<TK, KN>(); auto m = r.arr<TI, N>(); res o; constexpr size_t D = M::digest_size; std::array<TO, D> d{}; const TI* p = N ? m.data() : nullptr; const TK* kp = KN ? key.data() : nullptr;
    mp::mac::digest<M>(kp, KN, p, N, d.data()); o.put(d.data(), D); d = {}; size_t k = r.below(D + 4); o.num(mp::mac::digest<M>(kp, KN, p, N, d.data(), k)); o.put(d.data(), D);
    M h; h.initialize(kp, KN); size_t c = N ? r.below(N + 1) : 0; h.update(p, c); h.update(p + c, N - c); h.finalize(); d = {}; h.digest(d.data()); o.put(d.data(), D);
    mp::mac::apie<M> w(kp, KN); w.update(p, c); auto x = w; x.update(p + c, N - c); d = {}; x.digest(d.data()); o.put(d.data(), D); w.digest(d.data(), k); o.put(d.data(), D); w.initialize(kp, KN); w.update(p, N); w.digest(d.data()); o.put(d.data(), D);
    return o;
}
template<class M, int Q, u64 S> constexpr res mac_kind()
{
    constexpr size_t N = 37, D = M::digest_size, KS = M::key_size ? M::key_size : 45; crng r(S); auto m = r.arr<uc, N>(); auto kb = r.arr<uc, KS>(); res o; size_t k = r.below(D + 3);
    with<typename in_kind<Q % INS, KS>::type>(kb, [&](auto& key) { with<typename in_kind<(Q * 7 + 3) % INS, N>::type>(m, [&](auto& x)
    {
        o.all(mp::mac::digest<M>(key, x)); o.all(mp::mac::digest<M>(key, x, k)); mp::mac::apie<M> w(key); w.update(x); w.update(x); o.all(w.digest()); o.all(w.digest(k));
        with<typename out_kind<Q % OUTS, D>::type>(r.arr<uc, D>(), [&](auto& y) { o.num(mp::mac::digest<M>(key, x, y)); o.all(y); o.num(mp::mac::digest<M>(key, x, y, k)); o.all(y); w.digest(y); o.all(y); w.initialize(key); w.update(x); w.digest(y, k); o.all(y); });
        using Y = typename out_kind<Q % DYNS, D>::type; o.all(mp::mac::digest<M, Y>(key, x, k)); using Z = typename out_kind<DYNS + Q % STATS, D>::type; o.all(mp::mac::digest<M, Z>(key, x)); o.all(w.template digest<Z>());
    }); });
    return o;
}
template<class M, class TI, class TO, u64 S> constexpr res mac_history()
{
    using W = mp::mac::apie<M>; crng r(S); res o; constexpr size_t D = M::digest_size; constexpr size_t KM = M::key_size ? M::key_size : 90; auto kl = [&] { return M::key_size && r.below(3) ? KM : r.below(KM + 1); };
    history<W>(r, 7, [&] { auto k = r.arr<TO, KM>(); size_t kn = kl(); return W(k.data(), kn); }, [&](W& w) { auto m = r.arr<TI, 150>(); w.update(m.data(), r.below(r.below(3) ? 40 : 151)); if (!r.below(5)) { w.initialize(m.data(), kl()); w.update(m.data(), 3); } }, [&](W& w) { std::array<TO, D> d{}; w.digest(d.data(), r.below(3) ? D : r.below(D)); o.put(d.data(), D); });
    return o;
}
template<class M> void mac_const(const char* nm, auto&& refm)
{
    times<N_ONE>([&](auto i)
    {
        constexpr u64 S = 3000 + u64(i); constexpr size_t N = pick_len(int(i) + 3), KN = M::key_size ? (i % 3 == 2 ? 7 + 13 * i % 40 : M::key_size) : pick_len(int(i) * 3 + 11); using TK = byte_t<i + 1>; using TI = byte_t<i>;
        auto want = [&] { crng r(S); auto k = r.arr<TK, KN>(); auto m = r.arr<TI, N>(); return refm(B(k), B(m)); }; RUNREF(strf("mac %s, key of %zu bytes, %zu bytes", nm, KN, N).c_str(), want(), mac_one<M, KN, N, TK, TI, byte_t<i / 2>, S>)
    });
    times<N_HIST>([&](auto i) { RUN(strf("history %d of mac %s", int(i), nm).c_str(), mac_history<M, byte_t<i>, byte_t<i + 1>, 4000 + u64(i)>) });
}

// ---- kdf ----
template<class K, bool HK, size_t A, size_t BN, size_t C, size_t L, class T1, class T2, class TO, u64 S, unsigned IT = 1 + S % 2> constexpr res kdf_one()
{
    crng r(S); auto a = r.arr<T1, A>(); auto b = r.arr<T2, BN>(); auto c = r.arr<T1, C>(); res o; std::array<TO, L> d{}; const T1* ap = A ? a.data() : nullptr; const T2* bp = BN ? b.data() : nullptr; const T1* cp = C ? c.data() : nullptr; using W = mp::kdf::apie<K>;
    if constexpr (HK) mp::kdf::derive<K>(ap, A, bp, BN, cp, C, d.data(), L); else mp::kdf::derive<K>(ap, A, bp, BN, IT, d.data(), L); o.put(d.data(), L);
    auto mk = [&] { if constexpr (HK) return W(ap, A, bp, BN, cp, C); else return W(ap, A, bp, BN, IT); }; W w = mk(); d = {}; size_t x = r.below(L + 1); w.derive(d.data(), x); W v(w); w.derive(d.data() + x, L - x); o.put(d.data(), L); d = {}; v.derive(d.data(), L - x); o.put(d.data(), L - x);
    K k; if constexpr (HK) k.initialize(ap, A, bp, BN, cp, C); else k.initialize(ap, A, bp, BN, IT); d = {}; k.derive(d.data(), L); o.put(d.data(), L);
    return o;
}
template<class K, bool HK, int Q, u64 S> constexpr res kdf_kind()
{
    constexpr size_t A = 33, BN = 21, C = 14, L = 50; crng r(S); auto a = r.arr<uc, A>(); auto b = r.arr<uc, BN>(); auto c = r.arr<uc, C>(); res o; using W = mp::kdf::apie<K>;
    with<typename in_kind<Q % INS, A>::type>(a, [&](auto& x) { with<typename in_kind<(Q * 7 + 3) % INS, BN>::type>(b, [&](auto& y) { with<typename in_kind<(Q * 11 + 8) % INS, C>::type>(c, [&](auto& z) { with<typename out_kind<Q % OUTS, L>::type>(r.arr<uc, L>(), [&](auto& u)
    {
        using Y = typename out_kind<Q % DYNS, L>::type; using Z = typename out_kind<DYNS + Q % STATS, L>::type;
        if constexpr (HK) { mp::kdf::derive<K>(x, y, z, u, L); o.all(u); o.all(mp::kdf::derive<K>(x, y, z, L)); o.all(mp::kdf::derive<K, Y>(x, y, z, 9)); o.all(mp::kdf::derive<K, Z>(x, y, z)); W w(x, y, z); w.derive(u, L); o.all(u); o.all(w.derive(7)); o.all(w.template derive<Z>()); w.initialize(x, y, z); o.all(w.template derive<Y>(11)); }
        else { mp::kdf::derive<K>(x, y, 2u, u, L); o.all(u); o.all(mp::kdf::derive<K>(x, y, 1u, L)); o.all(mp::kdf::derive<K, Y>(x, y, 2u, 9)); W w(x, y, 1u); w.derive(u, L); o.all(u); o.all(w.derive(7)); w.initialize(x, y, 2u); o.all(w.template derive<Y>(11)); }
    }); }); }); });
    return o;
}
template<class K, bool HK, class T, class TO, u64 S> constexpr res kdf_history()
{
    using W = mp::kdf::apie<K>; crng r(S); res o; auto pool = r.arr<T, 200>();
    auto mk = [&] { const T* p = pool.data(); size_t i = r.below(100), j = r.below(100), k = r.below(100), in = r.below(60), jn = r.below(90), kn = r.below(30); if constexpr (HK) return W(p + i, in, p + j, jn, p + k, kn); else return W(p + i, in, p + j, jn, unsigned(1 + k % 2)); };
    history<W>(r, 5, mk, [&](W& w) { std::array<TO, 90> d{}; size_t n = r.below(r.below(3) ? 12 : 50); w.derive(d.data(), n); o.put(d.data(), n); }, [&](W& w) { std::array<TO, 40> d{}; w.derive(d.data(), r.below(40)); o.put(d.data(), 40); });
    return o;
}
template<class K, bool HK> void kdf_const(const char* nm, auto&& refk)
{
    times<(N_ONE + 1) / 2>([&](auto i)
    {
        constexpr u64 S = 5000 + u64(i); constexpr size_t A = pick_len(int(i) + 2) % 140, BN = pick_len(int(i) * 5 + 1) % 140, C = pick_len(int(i) + 40) % 60, L = HK ? 1 + pick_len(int(i) + 90) % 120 : 1 + pick_len(int(i) + 90) % 70; using T1 = byte_t<i>; using T2 = byte_t<i + 1>;
        auto want = [&] { crng r(S); auto a = r.arr<T1, A>(); auto b = r.arr<T2, BN>(); auto c = r.arr<T1, C>(); return refk(B(a), B(b), B(c), unsigned(1 + S % 2), L); }; RUNREF(strf("kdf %s, %zu, %zu, %zu bytes, %zu out", nm, A, BN, C, L).c_str(), want(), kdf_one<K, HK, A, BN, C, L, T1, T2, byte_t<i + 2>, S>)
    });
    times<(N_HIST + 1) / 2>([&](auto i) { RUN(strf("history %d of kdf %s", int(i), nm).c_str(), kdf_history<K, HK, byte_t<i>, byte_t<i + 1>, 6000 + u64(i)>) });
}

// ---- cipher, aead ----
template<class C, size_t N, class TK, class TI, class TO, u64 S> constexpr res cipher_one()
{
    crng r(S); auto k = r.arr<TK, 32>(); auto v = r.arr<TK, 16>(); if (S % 2) for (size_t i = 0; i < 4; i++) v[i] = TK(0xff); auto m = r.arr<TI, N>(); res o; std::array<TO, N> d{}; const TI* p = N ? m.data() : nullptr; using W = mp::cipher::apie<C>;
    mp::cipher::encrypt<C>(k.data(), 32, v.data(), 16, p, N, d.data()); o.put(d.data(), N); d = {}; mp::cipher::decrypt<C>(k.data(), 32, v.data(), 16, p, N, d.data()); o.put(d.data(), N);
    W w(k.data(), 32, v.data(), 16); size_t x = N ? r.below(N + 1) : 0; d = {}; w.encrypt(p, x, d.data()); W u(w); u.decrypt(p + x, N - x, d.data() + x); o.put(d.data(), N); auto q = m; w.encrypt(q.data(), N, q.data()); o.put(q.data(), N);   // in place
    return o;
}
template<class C, int Q, u64 S> constexpr res cipher_kind()
{
    constexpr size_t N = 75; crng r(S); auto k = r.arr<uc, 32>(); auto v = r.arr<uc, 16>(); auto m = r.arr<uc, N>(); res o; using W = mp::cipher::apie<C>;
    with<typename in_kind<Q % INS, 32>::type>(k, [&](auto& x) { with<typename in_kind<(Q * 7 + 3) % INS, 16>::type>(v, [&](auto& y) { with<typename in_kind<(Q * 11 + 8) % INS, N>::type>(m, [&](auto& z) { with<typename out_kind<Q % OUTS, N>::type>(r.arr<uc, N>(), [&](auto& u)
    {
        using Y = typename out_kind<Q % DYNS, N>::type; mp::cipher::encrypt<C>(x, y, z, u); o.all(u); mp::cipher::decrypt<C>(x, y, z, u); o.all(u); o.all(mp::cipher::encrypt<C>(x, y, z)); o.all(mp::cipher::decrypt<C, Y>(x, y, z)); W w(x, y); w.encrypt(z, u); o.all(u); w.decrypt(z, u); o.all(u); o.all(w.template encrypt<Y>(z)); o.all(w.template decrypt<Y>(z)); w.initialize(x, y); o.all(w.template encrypt<Y>(z));
    }); }); }); });
    return o;
}
template<class C, class T, class TO, u64 S> constexpr res cipher_history()
{
    using W = mp::cipher::apie<C>; crng r(S); res o;
    history<W>(r, 8, [&] { auto k = r.arr<T, 32>(); auto v = r.arr<TO, 16>(); if (r.below(2)) for (size_t i = 0; i < 4; i++) v[i] = TO(0xff); return W(k.data(), 32, v.data(), 16); }, [&](W& w) { auto m = r.arr<T, 200>(); std::array<TO, 200> d{}; size_t n = r.below(r.below(3) ? 30 : 200); if (r.below(2)) w.encrypt(m.data(), n, d.data()); else w.decrypt(m.data(), n, d.data()); o.put(d.data(), n); }, [&](W& w) { auto m = r.arr<T, 20>(); w.encrypt(m.data(), 20, m.data()); o.put(m.data(), 20); });
    return o;
}
template<class C, size_t AN, size_t N, class TK, class TI, class TO, u64 S> constexpr res aead_one()
{
    crng r(S); auto k = r.arr<TK, 32>(); auto v = r.arr<TK, 12>(); auto a = r.arr<TO, AN>(); auto m = r.arr<TI, N>(); res o; std::array<TO, N> d{}; std::array<TI, N> q{}; std::array<TK, 16> t{}; const TI* p = N ? m.data() : nullptr; const TO* ap = AN ? a.data() : nullptr; using W = mp::aead::apie<C>; milo::error e(milo::error::size);
    mp::aead::encrypt<C>(k.data(), 32, v.data(), 12, ap, AN, p, N, d.data(), t.data()); o.put(d.data(), N); o.put(t.data(), 16);
    mp::aead::decrypt<C>(k.data(), 32, v.data(), 12, ap, AN, N ? d.data() : nullptr, N, t.data(), 16, q.data(), e); o.num(u64(milo::error::code(e))); o.put(q.data(), N); mp::aead::decrypt<C>(k.data(), 32, v.data(), 12, ap, AN, d.data(), N, t.data(), 16, q.data()); o.put(q.data(), N);
    auto bad = t; bad[r.below(16)] ^= TK(1 << r.below(7)); mp::aead::decrypt<C>(k.data(), 32, v.data(), 12, ap, AN, d.data(), N, bad.data(), 16, q.data(), e); o.num(u64(milo::error::code(e))); mp::aead::decrypt<C>(k.data(), 32, v.data(), 12, ap, AN, d.data(), N, t.data(), r.below(16), q.data(), e); o.num(u64(milo::error::code(e)));
    W w(k.data(), 32, v.data(), 12); w.aad(ap, AN); size_t x = N ? r.below(N + 1) : 0; d = {}; w.encrypt(p, x, d.data()); W u(w); u.encrypt(p + x, N - x, d.data() + x); o.put(d.data(), N); u.digest(t.data()); o.put(t.data(), 16); u.verify(t.data(), 16, e); o.num(u64(milo::error::code(e))); u.verify(t.data(), 16); w.digest(t.data(), 9); o.put(t.data(), 16);
    return o;
}
template<class C, int Q, u64 S> constexpr res aead_kind()
{
    constexpr size_t N = 75, AN = 21; crng r(S); auto k = r.arr<uc, 32>(); auto v = r.arr<uc, 12>(); auto a = r.arr<uc, AN>(); auto m = r.arr<uc, N>(); res o; using W = mp::aead::apie<C>;
    with<typename in_kind<Q % INS, 32>::type>(k, [&](auto& x) { with<typename in_kind<(Q * 7 + 3) % INS, 12>::type>(v, [&](auto& y) { with<typename in_kind<(Q * 11 + 8) % INS, AN>::type>(a, [&](auto& z) { with<typename in_kind<(Q * 3 + 1) % INS, N>::type>(m, [&](auto& p) { with<typename out_kind<Q % OUTS, N>::type>(r.arr<uc, N>(), [&](auto& u) { with<typename out_kind<(Q * 5 + 2) % OUTS, 16>::type>(r.arr<uc, 16>(), [&](auto& d)
    {
        using Y = typename out_kind<Q % DYNS, N>::type; milo::error e; mp::aead::encrypt<C>(x, y, z, p, u, d); o.all(u); o.all(d); with<typename out_kind<(Q + 1) % OUTS, N>::type>(m, [&](auto& b) { mp::aead::decrypt<C>(x, y, z, u, d, b, e); o.all(b); o.num(u64(milo::error::code(e))); mp::aead::decrypt<C>(x, y, z, u, d, b); o.all(mp::aead::decrypt<C, Y>(x, y, z, u, d)); d.data()[3] ^= 4; o.all(mp::aead::decrypt<C, Y>(x, y, z, u, d, e)); o.num(u64(milo::error::code(e))); });
        { auto [s, t] = mp::aead::encrypt<C>(x, y, z, p); o.all(s); o.all(t); } W w(x, y); w.aad(z); w.encrypt(p, u); o.all(u); w.digest(d); o.all(d); w.verify(d); w.verify(d, e); o.num(u64(milo::error::code(e))); o.all(w.digest()); o.all(w.digest(5)); w.initialize(x, y); o.all(w.template decrypt<Y>(p)); w.verify(d, e); o.num(u64(milo::error::code(e)));
    }); }); }); }); }); });
    return o;
}
template<class C, class T, class TO, u64 S> constexpr res aead_history()
{
    using W = mp::aead::apie<C>; crng r(S); res o;
    history<W>(r, 6, [&] { auto k = r.arr<T, 32>(); auto v = r.arr<TO, 12>(); W w(k.data(), 32, v.data(), 12); auto a = r.arr<TO, 40>(); w.aad(a.data(), r.below(20)); w.aad(a.data(), r.below(20)); return w; }, [&](W& w) { auto m = r.arr<T, 150>(); std::array<TO, 150> d{}; size_t n = r.below(r.below(3) ? 30 : 150); w.encrypt(m.data(), n, d.data()); o.put(d.data(), n); }, [&](W& w) { std::array<TO, 16> t{}; w.digest(t.data()); o.put(t.data(), 16); milo::error e; t[r.below(16)] ^= TO(r.below(2)); w.verify(t.data(), 16, e); o.num(u64(milo::error::code(e))); });
    return o;
}

// ---- codec ----
template<class C, size_t N, class TI, class TO, u64 S> constexpr res codec_one()
{
    constexpr bool B16 = std::is_same_v<C, prim::b16>; constexpr size_t TN = B16 ? N * 2 : (N + 2) / 3 * 4; crng r(S); auto m = r.arr<TI, N>(); res o; std::array<TO, TN> t{}; std::array<TI, TN + 4> b{}; milo::error e(milo::error::size); const TI* p = N ? m.data() : nullptr; using W = mp::codec::apie<C>;
    o.num(mp::codec::encode<C>(p, N, t.data())); o.put(t.data(), TN); o.num(W::encode_size(p, N)); o.num(C::encode_size(p, N)); o.num(W::decode_size(t.data(), TN));
    o.num(mp::codec::decode<C>(t.data(), TN, b.data(), e)); o.put(b.data(), N); o.num(u64(milo::error::code(e))); mp::codec::decode<C>(t.data(), TN, b.data()); W::decode(t.data(), TN, b.data(), e);
    for (int i = 0; i < 6; i++) { auto x = t; if (TN) x[r.below(TN)] = TO(r.below(4) ? r.next() : u64("=-_ +/gG@`[{"[r.below(12)])); size_t n = r.below(3) ? TN : TN ? r.below(TN) : 0; b = {}; size_t g = mp::codec::decode<C>(x.data(), n, b.data(), e); o.num(u64(milo::error::code(e))); if (!e) { o.num(g); o.put(b.data(), g); } }
    return o;
}
template<class C, int Q, u64 S> constexpr res codec_kind()
{
    constexpr size_t N = 34; constexpr size_t TN = std::is_same_v<C, prim::b16> ? 68 : 48; crng r(S); auto m = r.arr<uc, N>(); res o; milo::error e; using W = mp::codec::apie<C>;
    with<typename in_kind<Q % INS, N>::type>(m, [&](auto& x) { with<typename out_kind<Q % OUTS, TN>::type>(r.arr<uc, TN>(), [&](auto& t) { with<typename out_kind<(Q * 3 + 1) % OUTS, N>::type>(r.arr<uc, N>(), [&](auto& u)
    {
        using Y = typename out_kind<Q % DYNS, N>::type; mp::codec::encode<C>(x, t); o.all(t); o.all(mp::codec::encode<C>(x)); o.all(W::template encode<Y>(x)); o.num(W::encode_size(x)); mp::codec::decode<C>(t, u); o.all(u); mp::codec::decode<C>(t, u, e); o.num(u64(milo::error::code(e))); o.all(mp::codec::decode<C>(t)); o.all(W::template decode<Y>(t)); o.num(W::decode_size(t)); W::decode(t, u); o.all(u); t.data()[7] = '*'; mp::codec::decode<C>(t, u, e); o.num(u64(milo::error::code(e))); W::decode(t, u, e); o.num(u64(milo::error::code(e)));
    }); }); });
    return o;
}
constexpr res literals()
{
    using namespace milo::literal; res o; o.all("616263"_base_16); o.all("fFf"_base_16); o.all(""_base_16); o.all("YWJj"_base_64); o.all("/+8="_base_64); o.all("\x80 c"_c); o.all("cv"_cv); return o;
}
constexpr res errors()
{
    res o; milo::error a, b(milo::error::aead_verify); o.num(bool(a)); o.num(bool(b)); a = b; o.num(a == milo::error::aead_verify); a.clear(); o.num(u64(milo::error::code(a))); milo::error c(b); o.num(u64(milo::error::code(c))); o.num(c == milo::error::aead_verify); a = milo::error::size; o.num(u64(milo::error::code(a))); return o;
}
#ifdef KINDS
constexpr int K0 = KINDS * INS / 3, K1 = (KINDS + 1) * INS / 3;
#define EACHKIND(NAME, ...) each<K0, K1>([&](auto q) { RUN(strf("%s, container kinds %d", NAME, int(q)).c_str(), __VA_ARGS__) });
#endif
int main()
{
    init();
    cases("C13.constants", 1, [&](rng&, u64)
    {
        #ifdef LARGE
        // longer inputs and outputs than the rest
        using namespace ref; constexpr size_t j = SEEDV % 64;
        #define BIGH(A, H, N) { constexpr u64 S = 100 + N; RUNREF("large hash " #H, (ref::hash(A, B(crng(S).arr<uc, N>()).data(), N)), hash_one<H, N, uc, char, S>) }
        #define BIGM(M, KN, N, REF) { constexpr u64 S = 200 + N; RUNREF("large mac " #M, [&] { crng r(S); auto k = B(r.arr<char, KN>()); auto m = B(r.arr<uc, N>()); return REF; }(), mac_one<M, KN, N, char, uc, sc, S>) }
        #define BIGK(K, HK, A, BN, C, L, IT, REF) { constexpr u64 S = 300 + L; RUNREF("large kdf " #K, [&] { crng r(S); auto a = B(r.arr<uc, A>()); auto b = B(r.arr<char, BN>()); auto c = B(r.arr<uc, C>()); return REF; }(), kdf_one<K, HK, A, BN, C, L, uc, char, uc, S, IT>) }
        #define BIGE(C, N, REF) { constexpr u64 S = 400 + N; RUNREF("large codec " #C, ([&] { auto m = B(crng(S).arr<uc, N>()); auto t = REF; bytes o{u8(t.size()), u8(t.size() >> 8), 0xee}; o.insert(o.end(), t.begin(), t.end()); return o; }()), codec_one<C, N, uc, char, S>) }
        #if PART == 0
        BIGH(SHA1, mp::hash::sha_1_160<>, 4200 + j) BIGH(SHA256, mp::hash::sha_2_256<>, 4300 + j) BIGH(SHA224, mp::hash::sha_2_224<>, 1024 + j * 64) BIGM(prim::hmac<mp::hash::sha_2_256<>>, 1100 + j, 3000 + j, ref::hmac(SHA256, k.data(), k.size(), m.data(), m.size()))
        using HK1 = prim::hkdf<mp::hash::sha_1_160<>>; using PB2 = prim::pbkdf<mp::hash::sha_2_256<>>; BIGK(HK1, true, 500 + j, 400 + j, 600 + j, 1400 + j, 1, ref::hkdf(SHA1, a.data(), a.size(), b.data(), b.size(), c.data(), c.size(), 1400 + j)) BIGK(PB2, false, 300 + j, 500 + j, 1, 70, 20, ref::pbkdf2(SHA256, a.data(), a.size(), b.data(), b.size(), 20, 70))
        #elif PART == 1
        BIGH(SHA512, mp::hash::sha_2_512<>, 4500 + j) BIGH(SHA384, mp::hash::sha_2_384<>, 1024 + j * 128) BIGM(prim::hmac<mp::hash::sha_2_512<>>, 1300 + j, 2600 + j, ref::hmac(SHA512, k.data(), k.size(), m.data(), m.size()))
        using HK1 = prim::hkdf<mp::hash::sha_2_512<>>; using PB2 = prim::pbkdf<mp::hash::sha_2_512_256<>>; BIGK(HK1, true, 300 + j, 200 + j, 900 + j, 2000 + j, 1, ref::hkdf(SHA512, a.data(), a.size(), b.data(), b.size(), c.data(), c.size(), 2000 + j)) BIGK(PB2, false, 500 + j, 300 + j, 1, 70, 30, ref::pbkdf2(SHA512_256, a.data(), a.size(), b.data(), b.size(), 30, 70))
        #else
        BIGM(prim::poly, 32, 4000 + j, ref::poly1305(k.data(), m.data(), m.size())) BIGE(prim::b16, 1500 + j, ref::b16e(m.data(), m.size())) BIGE(prim::b64, 2000 + j, ref::b64e(m.data(), m.size()))
        { constexpr u64 S = 501; constexpr size_t N = 4000 + j; RUNREF("large cipher", [&] { crng r(S); auto k = B(r.arr<uc, 32>()); auto v = B(r.arr<uc, 16>()); memset(v.data(), 0xff, 4); auto m = B(r.arr<char, N>()); bytes o(N); ref::chacha_xor(k.data(), ~0u, v.data() + 4, m.data(), N, o.data()); return o; }(), cipher_one<mp::cipher::chacha_20<>, N, uc, char, sc, S>) }
        { constexpr u64 S = 502; constexpr size_t N = 1800 + j, AN = 900 + j; RUNREF("large aead", [&] { crng r(S); auto k = B(r.arr<uc, 32>()); auto v = B(r.arr<uc, 12>()); auto a = B(r.arr<sc, AN>()); auto m = B(r.arr<char, N>()); auto s = ref::aead_seal(k.data(), v.data(), a.data(), AN, m.data(), N); bytes o(s.ct); o.insert(o.end(), s.tag.begin(), s.tag.end()); return o; }(), aead_one<mp::aead::chacha_20_poly_1305<>, AN, N, uc, char, sc, S>) }
        #endif
        #elif !defined KINDS
        #define REFH(N) [](const bytes& m) { return ref::hash(ref::N, m.data(), m.size()); }
        #define REFM(N) [](const bytes& k, const bytes& m) { return ref::hmac(ref::N, k.data(), k.size(), m.data(), m.size()); }
        #define REFHK(N) [](const bytes& a, const bytes& b, const bytes& c, unsigned, size_t n) { return ref::hkdf(ref::N, a.data(), a.size(), b.data(), b.size(), c.data(), c.size(), n); }
        #define REFPB(N) [](const bytes& a, const bytes& b, const bytes&, unsigned it, size_t n) { return ref::pbkdf2(ref::N, a.data(), a.size(), b.data(), b.size(), it, n); }
        #define CH(N) { using H = typename prim::hash_of<ref::N>::any; hash_const<H>(ref::aname(ref::N), REFH(N), 0); mac_const<prim::hmac<H>>(ref::aname(ref::N), REFM(N)); kdf_const<prim::hkdf<H>, true>((std::string("hkdf ") + ref::aname(ref::N)).c_str(), REFHK(N)); kdf_const<prim::pbkdf<H>, false>((std::string("pbkdf2 ") + ref::aname(ref::N)).c_str(), REFPB(N)); }
        #if PART == 0
        CH(SHA1) hash_const<prim::hash_of<ref::SHA1>::sw>("sha1 sw", REFH(SHA1), 0); hash_const<mp::hash_sha_1_160_hw_x86_64_ni>("sha1 ni", REFH(SHA1), 0);
        #elif PART == 1
        CH(SHA224) hash_const<mp::hash_sha_2_224_hw_x86_64_ni>("sha224 ni", REFH(SHA224), 0);
        #elif PART == 2
        CH(SHA256) hash_const<mp::hash_sha_2_256_hw_x86_64_ni>("sha256 ni", REFH(SHA256), 0);
        #elif PART == 3
        CH(SHA384)
        #elif PART == 4
        CH(SHA512)
        #elif PART == 5
        CH(SHA512_224)
        #elif PART == 6
        CH(SHA512_256)
        #elif PART == 7
        prim::cipher_backends([&](const char* nm, auto t)
        {
            using C = typename decltype(t)::type;
            times<N_ONE>([&](auto i) { constexpr u64 S = 7000 + u64(i); constexpr size_t N = pick_len(int(i) + 60); using TK = byte_t<i + 1>; using TI = byte_t<i>;
                auto want = [&] { crng r(S); auto k = B(r.arr<TK, 32>()); auto v = B(r.arr<TK, 16>()); if (S % 2) memset(v.data(), 0xff, 4); auto m = B(r.arr<TI, N>()); bytes o(N); ref::chacha_xor(k.data(), ref::u32(v[0] | v[1] << 8 | v[2] << 16) | ref::u32(v[3]) << 24, v.data() + 4, m.data(), N, o.data()); return o; }; RUNREF(strf("cipher %s of %zu bytes", nm, N).c_str(), want(), cipher_one<C, N, TK, TI, byte_t<i / 2>, S>) });
            times<N_HIST>([&](auto i) { RUN(strf("history %d of cipher %s", int(i), nm).c_str(), cipher_history<C, byte_t<i>, byte_t<i + 1>, 8000 + u64(i)>) });
        });
        mac_const<prim::poly>("poly", [](const bytes& k, const bytes& m) { bytes q(k); q.resize(32); return ref::poly1305(q.data(), m.data(), m.size()); });
        #elif PART == 8
        prim::aead_backends([&](const char* nm, auto t)
        {
            using C = typename decltype(t)::type;
            times<N_ONE>([&](auto i) { constexpr u64 S = 9000 + u64(i); constexpr size_t N = pick_len(int(i) + 80), AN = pick_len(int(i) + 120) % 70; using TK = byte_t<i + 1>; using TI = byte_t<i>; using TO = byte_t<i / 2>;
                auto want = [&] { crng r(S); auto k = B(r.arr<TK, 32>()); auto v = B(r.arr<TK, 12>()); auto a = B(r.arr<TO, AN>()); auto m = B(r.arr<TI, N>()); auto s = ref::aead_seal(k.data(), v.data(), a.data(), AN, m.data(), N); bytes o(s.ct); o.insert(o.end(), s.tag.begin(), s.tag.end()); return o; }; RUNREF(strf("aead %s of %zu and %zu bytes", nm, AN, N).c_str(), want(), aead_one<C, AN, N, TK, TI, TO, S>) });
            times<N_HIST>([&](auto i) { RUN(strf("history %d of aead %s", int(i), nm).c_str(), aead_history<C, byte_t<i>, byte_t<i + 1>, 10000 + u64(i)>) });
        });
        #else
        auto codec = [&](auto c, const char* nm, auto refe) { using C = typename decltype(c)::type; times<N_ONE * 4>([&](auto i) { constexpr u64 S = 11000 + u64(i); constexpr size_t N = i < 8 ? size_t(i) : pick_len(int(i)) % 70; using TI = byte_t<i>;
            auto want = [&] { auto m = B(crng(S).arr<TI, N>()); auto s = refe(m.data(), N); bytes o; constexpr bool B16 = std::is_same_v<C, prim::b16>; size_t tn = B16 ? N * 2 : (N + 2) / 3 * 4; o.push_back(u8(tn)); o.push_back(u8(tn >> 8)); o.push_back(0xee); o.insert(o.end(), s.begin(), s.end()); return o; }; RUNREF(strf("%s of %zu bytes", nm, N).c_str(), want(), codec_one<C, N, TI, byte_t<i / 3>, S>) }); };
        codec(prim::type_t<prim::b16>{}, "base16", ref::b16e); codec(prim::type_t<prim::b64>{}, "base64", ref::b64e); RUN("literals", literals) RUN("errors", errors)
        #endif
        #else
        #if PART == 0
        EACHKIND("hash sha256", hash_kind<mp::hash::sha_2_256<>, q, 100 + u64(q)>) EACHKIND("hash sha1", hash_kind<mp::hash::sha_1_160<>, q, 150 + u64(q)>) 
        #elif PART == 1
        EACHKIND("hash sha512/224", hash_kind<mp::hash::sha_2_512_224<>, q, 100 + u64(q)>) EACHKIND("hmac sha1", mac_kind<prim::hmac<mp::hash::sha_1_160<>>, q, 200 + u64(q)>) EACHKIND("poly", mac_kind<prim::poly, q, 250 + u64(q)>)
        #elif PART == 2
        EACHKIND("hkdf", kdf_kind<prim::hkdf<mp::hash::sha_2_256<>>, true, q, 300 + u64(q)>) EACHKIND("pbkdf2", kdf_kind<prim::pbkdf<mp::hash::sha_1_160<>>, false, q, 350 + u64(q)>)
        #elif PART == 3
        EACHKIND("cipher", cipher_kind<mp::cipher::chacha_20<>, q, 400 + u64(q)>) EACHKIND("base16", codec_kind<prim::b16, q, 600 + u64(q)>) EACHKIND("base64", codec_kind<prim::b64, q, 650 + u64(q)>)
        #else
        EACHKIND("aead", aead_kind<mp::aead::chacha_20_poly_1305<>, q, 500 + u64(q)>)
        #endif
        #endif
    });
    return finish();
}
