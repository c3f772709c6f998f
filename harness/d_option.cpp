// C30: implementation options. Implementations of our own, which count or mark what passes through them, are given to every primitive
// that takes options, under every kind of requirement, in every order, on every modelled processor.
#include "cpu.h"
#include <milo/option.h>
namespace mo = milo::option; namespace md = mp::detail;

static u64 hits[8];
// What an implementation may ask of the processor.
struct none {};
struct blank { struct requirements {}; };
#define REQ(N, MASK, ...) struct N { static constexpr u64 need = MASK; struct requirements { struct arch { struct x86_64 { struct ise { __VA_ARGS__ }; }; }; }; };
REQ(r_sse1, 0, using sse_1 = int;) REQ(r_sse2, 0, using sse_2 = int;) REQ(r_sse3, SSE3, using sse_3 = int;) REQ(r_ssse3, SSSE3, using ssse_3 = void;) REQ(r_sse41, SSE41, using sse_4_1 = int;) REQ(r_sse42, SSE42, struct sse_4_2;)
REQ(r_sse4, SSE41 | SSE42, using sse_4 = int;) REQ(r_avx, AVX, using avx_1 = int;) REQ(r_avx2, AVX2, using avx_2 = int;) REQ(r_sha1, SHA, using sha_1 = int;) REQ(r_sha2, SHA, using sha_2 = int;)
REQ(r_two, SSSE3 | SHA, using ssse_3 = int; using sha_2 = int;) REQ(r_mix, SSE3 | SSE42 | AVX, using sse_3 = int; using sse_4_2 = int; using avx_1 = int;) REQ(r_all, SSE3 | SSSE3 | SSE41 | SSE42 | AVX | AVX2 | SHA, using sse_1 = int; using sse_2 = int; using sse_3 = int; using ssse_3 = int; using sse_4_1 = int; using sse_4_2 = int; using sse_4 = int; using avx_1 = int; using avx_2 = int; using sha_1 = int; using sha_2 = int;)
REQ(r_noise, 0, )
struct r_arch { static constexpr u64 need = 0; struct requirements { struct arch { struct x86_64 {}; }; }; };
struct r_other { static constexpr u64 need = ~0ull; struct requirements { struct arch { struct x86_32 { struct ise { using sse_2 = int; }; }; }; }; };
struct r_both { static constexpr u64 need = SSE3; struct requirements { struct arch { struct x86_32 { struct ise {}; }; struct x86_64 { struct ise { using sse_3 = int; }; }; }; }; };
template<class R> constexpr u64 need_of() { if constexpr (requires { R::need; }) return R::need; else return 0; }
static u64 have;
template<class R> bool met() { constexpr u64 n = need_of<R>(); return !(n & ~have); }
#define REQS none, blank, r_sse1, r_sse2, r_sse3, r_ssse3, r_sse41, r_sse42, r_sse4, r_avx, r_avx2, r_sha1, r_sha2, r_two, r_mix, r_all, r_noise, r_arch, r_other, r_both

template<class W, class B, int T, class R = none, unsigned MARK = 0> struct HI : R
{
    static constexpr size_t block_size = B::block_size;
    template<milo::meta::byte S> static constexpr auto blocks(size_t n, W* st, const S* s) noexcept(true) -> void
    {
        if (!std::is_constant_evaluated()) hits[T] += n;
        for (size_t i = 0; i < n; i++) { B::blocks(1, st, s + i * block_size); st[1] ^= MARK; }
    }
};
template<int T, class R = none, size_t RATIO = 1, unsigned MARK = 0> struct CI : R
{
    using B = md::cipher_chacha_impl_sw_ietf; static constexpr size_t block_size = 64, block_ratio = RATIO;
    template<milo::meta::byte D, milo::meta::byte S> static constexpr auto transform(size_t n, const uint32_t* st, D* d, const S* s) noexcept(true) -> size_t
    { if (!std::is_constant_evaluated()) hits[T] += n; B::transform(n * RATIO, st, d, s); for (size_t i = 0; i < n * RATIO * 64; i++) d[i] = D(u8(d[i]) ^ MARK); return n * RATIO; }
    template<milo::meta::byte D> static constexpr auto generate(size_t n, const uint32_t* st, D* d) noexcept(true) -> size_t
    { if (!std::is_constant_evaluated()) hits[T] += n; B::generate(n * RATIO, st, d); for (size_t i = 0; i < n * RATIO * 64; i++) d[i] = D(u8(d[i]) ^ MARK); return n * RATIO; }
};
template<int T, class R = none, unsigned MARK = 0> struct PI : R
{
    using B = md::mac_poly_1305_impl_sw; static constexpr size_t block_size = 16;
    template<milo::meta::byte S> static constexpr auto process(size_t n, const uint32_t* k, uint32_t* acc, uint32_t add, const S* s) noexcept(true) -> void
    {
        if (!std::is_constant_evaluated()) hits[T] += n;
        for (size_t i = 0; i < n; i++) { B::process(1, k, acc, add, s + i * block_size); acc[0] ^= MARK; }
    }
};
// A chooser and an invoker of our own: whatever the chooser returns is what the invoker gets.
template<class W> struct hooks_hash
{
    template<class I> using type = I;
    template<class I> static constexpr auto hook() noexcept(true) { hits[6] += 1; return +[](size_t n, W* st, const u8* s) noexcept(true) { hits[7] += n; I::template blocks<u8>(n, st, s); }; }
};
struct calls_hash
{
    template<unsigned, class I, class... A> static constexpr auto type(A&&... a) noexcept(true) { return I::blocks(std::forward<A>(a)...); }
    template<unsigned, class H, class... A> static constexpr auto hook(const H& h, A&&... a) noexcept(true) { hits[5] += 1; return [&]<class X, class S>(size_t n, X* st, S* s) { return h(n, st, reinterpret_cast<const u8*>(s)); }(a...); }
};
struct hooks_poly
{
    template<class I> using type = I;
    template<class I> static constexpr auto hook() noexcept(true) { hits[6] += 1; return +[](size_t n, const uint32_t* k, uint32_t* acc, uint32_t add, const u8* s) noexcept(true) { hits[7] += n; I::template process<u8>(n, k, acc, add, s); }; }
};
struct calls_poly
{
    template<unsigned, class I, class... A> static constexpr auto type(A&&... a) noexcept(true) { return I::process(std::forward<A>(a)...); }
    template<unsigned, class H, class... A> static constexpr auto hook(const H& h, A&&... a) noexcept(true) { hits[5] += 1; return [&]<class S>(size_t n, const uint32_t* k, uint32_t* acc, uint32_t add, S* s) { return h(n, k, acc, add, reinterpret_cast<const u8*>(s)); }(a...); }
};
struct hooks_chacha
{
    struct table { size_t size; size_t (*t)(size_t, const uint32_t*, u8*, const u8*) noexcept(true); size_t (*g)(size_t, const uint32_t*, u8*) noexcept(true); };
    template<class I> using type = I;
    template<class I> static constexpr auto hook() noexcept(true) { hits[6] += 1; return table{I::block_size * I::block_ratio, [](size_t n, const uint32_t* st, u8* d, const u8* s) noexcept(true) -> size_t { return I::template transform<u8, u8>(n, st, d, s); }, [](size_t n, const uint32_t* st, u8* d) noexcept(true) -> size_t { return I::template generate<u8>(n, st, d); }}; }
};
struct calls_chacha
{
    template<unsigned ID, class I, class... A> static constexpr auto type(A&&... a) noexcept(true)
    { if constexpr (ID == 0) return I::block_size * I::block_ratio; else if constexpr (ID == 1) return I::transform(std::forward<A>(a)...); else return I::generate(std::forward<A>(a)...); }
    template<unsigned ID, class H, class... A> static constexpr auto hook(const H& h, A&&... a) noexcept(true)
    {
        hits[5] += 1;
        if constexpr (ID == 0) return h.size;
        else if constexpr (ID == 1) { hits[7] += 1; return [&]<class D, class S>(size_t n, const uint32_t* st, D* d, S* s) { return h.t(n, st, reinterpret_cast<u8*>(d), reinterpret_cast<const u8*>(s)); }(a...); }
        else { hits[7] += 1; return [&]<class D>(size_t n, const uint32_t* st, D* d) { return h.g(n, st, reinterpret_cast<u8*>(d)); }(a...); }
    }
};

static bytes msg; static std::string err; static const char* what = ""; static u64 uses = 0;
static u64 asm_entries() { u64 s = 0; for (size_t i = 0; i < nroutines; i++) s += vh_counters[i]; return s; }
static void bad(const std::string& s) { if (err.size() < 250) err += std::string(what) + ": " + s + "; "; }
static void clear() { memset(hits, 0, sizeof hits); uses += 1; }
enum { ANY = -1, FREE = -2 };
// by: tag of the implementation every block has to pass; ANY: none of ours; and then the processor's own may be entered
static void count_check(int by, u64 blocks, bool exact, u64 from)
{
    for (int t = 0; t < 5; t++) if (t == by ? (exact ? hits[t] != blocks : hits[t] == 0 && blocks) : hits[t] != 0) { bad(strf("implementation %d did %llu blocks, wanted %llu%s", t, (unsigned long long)hits[t], (unsigned long long)(t == by ? blocks : 0), exact ? "" : " or more")); return; }
    if (by >= 0 && asm_entries() != from) bad("an assembly routine ran though another implementation is to be used");
}
template<class W, ref::alg A, class H> void hash_judge(const char* w, size_t D, int by, bool any_asm = true)
{
    what = w; constexpr size_t BS = sizeof(W) == 4 ? 64 : 128, L = BS / 8; if (H::digest_size != D) { bad(strf("digest size %zu", size_t(H::digest_size))); return; }
    for (size_t n : {size_t(0), size_t(1), BS - L - 1, BS - L, BS, 3 * BS + 5, 20 * BS})
    {
        auto want = ref::hash(A, msg.data(), n); want.resize(D); u8 d[64]; const u64 blocks = (n + 1 + L + BS - 1) / BS;
        auto go = [&](auto f) { clear(); u64 from = asm_entries(); memset(d, 0x77, sizeof d); size_t r = f(); if (r != D || memcmp(d, want.data(), D)) bad(strf("wrong digest of %zu bytes", n)); count_check(by, blocks, true, from); if (!any_asm && asm_entries() != from) bad("assembly entered"); };
        go([&] { return mp::hash::digest<H>(msg.data(), n, d); });
        go([&] { return mp::hash::digest<H>(reinterpret_cast<const char*>(msg.data()), n, reinterpret_cast<char*>(d)); });
        go([&] { H h; h.initialize(); for (size_t i = 0; i < n;) { size_t k = std::min<size_t>(n - i, 1 + (i * 7 + n) % 300); h.update(msg.data() + i, k); i += k; } h.finalize(); return h.digest(d); });
    }
    if (D != ref::hash(A, nullptr, 0).size()) return;
    auto go = [&](const char* s, auto f) { clear(); u64 from = asm_entries(); if (!f()) bad(std::string("wrong ") + s); count_check(by, 1, false, from); if (!any_asm && asm_entries() != from) bad("assembly entered"); };
    u8 o[150]; go("hmac", [&] { size_t r = mp::mac::digest<prim::hmac<H>>(msg.data(), 200, msg.data(), 333, o); return r == D && ref::hmac(A, msg.data(), 200, msg.data(), 333) == bytes(o, o + r); });
    go("hkdf", [&] { mp::kdf::derive<prim::hkdf<H>>(msg.data(), 30, msg.data(), 9, msg.data(), 11, o, 150); return ref::hkdf(A, msg.data(), 30, msg.data(), 9, msg.data(), 11, 150) == bytes(o, o + 150); });
    go("pbkdf2", [&] { mp::kdf::derive<prim::pbkdf<H>>(msg.data(), 30, msg.data(), 9, 3, o, 150); return ref::pbkdf2(A, msg.data(), 30, msg.data(), 9, 3, 150) == bytes(o, o + 150); });
}
template<class M> void poly_judge(const char* w, size_t D, int by)
{
    what = w; if (M::digest_size != D || M::key_size != 32) { bad(strf("sizes %zu %zu", size_t(M::digest_size), size_t(M::key_size))); return; }
    for (size_t n : {0, 1, 15, 16, 17, 160, 333})
    {
        auto want = ref::poly1305(&msg[7], msg.data(), n); want.resize(D); u8 d[32];
        auto go = [&](auto f) { clear(); u64 from = asm_entries(); memset(d, 0x77, sizeof d); size_t r = f(); if (r != D || memcmp(d, want.data(), D)) bad(strf("wrong tag of %zu bytes", n)); count_check(by, (n + 15) / 16, true, from); };
        go([&] { return mp::mac::digest<M>(&msg[7], 32, msg.data(), n, d); });
        go([&] { return mp::mac::digest<M>(reinterpret_cast<const char*>(&msg[7]), 32, reinterpret_cast<const char*>(msg.data()), n, reinterpret_cast<char*>(d)); });
        go([&] { M h; h.initialize(&msg[7], 32); for (size_t i = 0; i < n;) { size_t k = std::min<size_t>(n - i, 1 + (i * 7 + n) % 50); h.update(msg.data() + i, k); i += k; } h.finalize(); return h.digest(d); });
    }
}
template<class C> void cipher_judge(const char* w, int by, u8 mark, bool any_asm = true)
{
    what = w; bytes k(&msg[40], &msg[72]), iv(&msg[72], &msg[88]); uint32_t ctr; memcpy(&ctr, iv.data(), 4);
    for (size_t n : {0, 1, 63, 64, 65, 511, 512, 513, 1500, 2100}) for (size_t cut : {size_t(0), n / 3, n})
    {
        bytes want(n), o(n); ref::chacha_xor(k.data(), ctr, &iv[4], msg.data(), n, want.data()); for (auto& b : want) b ^= mark;
        auto go = [&](auto f) { clear(); u64 from = asm_entries(); std::fill(o.begin(), o.end(), u8(0)); f(); if (o != want) bad(strf("wrong output for %zu bytes cut at %zu", n, cut)); count_check(by, n > 0, false, from); if (!any_asm && asm_entries() != from) bad("assembly entered"); };
        go([&] { mp::cipher::apie<C> h(k, iv); h.encrypt(msg.data(), cut, o.data()); h.encrypt(msg.data() + cut, n - cut, o.data() + cut); });
        go([&] { mp::cipher::apie<C> h(k, iv); h.decrypt(reinterpret_cast<const char*>(msg.data()), cut, reinterpret_cast<char*>(o.data())); h.decrypt(reinterpret_cast<const char*>(msg.data()) + cut, n - cut, reinterpret_cast<char*>(o.data()) + cut); });
    }
}

// Compile time: the implementation asked for there is used there only.
constexpr auto cmsg = [] { std::array<unsigned char, 300> a{}; for (size_t i = 0; i < a.size(); i++) a[i] = static_cast<unsigned char>(i * 31 + 5); return a; }();
template<class H, size_t N> constexpr auto chash() { std::array<unsigned char, H::digest_size> d{}; mp::hash::digest<H>(cmsg.data(), N, d.data()); return d; }
template<class M, size_t N> constexpr auto cmac() { std::array<unsigned char, M::digest_size> d{}; mp::mac::digest<M>(cmsg.data() + 9, 32, cmsg.data(), N, d.data()); return d; }
template<class C, size_t N> constexpr auto cciph() { std::array<unsigned char, N + 1> d{}; C h; h.initialize(cmsg.data() + 9, 32, cmsg.data() + 50, 16); h.encrypt(cmsg.data(), N, d.data()); return d; }
template<class F> auto now(F f) { volatile bool no = false; asm volatile("" ::: "memory"); if (no) return decltype(f()){}; return f(); }
template<auto V, class T> void const_judge(const char* w, const T& want) { what = w; static constexpr auto v = V; uses += 1; if (v.size() != want.size() || memcmp(v.data(), want.data(), v.size())) bad("compile time result differs: " + hex(v.data(), v.size()) + " wanted " + hex(want.data(), want.size())); }

template<template<class...> class H, class W, class B, ref::alg A> struct hash_tests
{
    template<int T, class R = none, unsigned MARK = 0> using I = HI<W, B, T, R, MARK>;
    static constexpr size_t F = H<>::digest_size; static constexpr unsigned MK = 0x1234567;
    template<class... R> static void all()
    {
        (one<R>(), ...);
        hash_judge<W, A, H<>>("no option", F, ANY);
        hash_judge<W, A, H<mo::digest_size<11>>>("digest size", 11, ANY);
        hash_judge<W, A, H<mo::impl_runtime<B>>>("portable at run time", F, ANY, false); hash_judge<W, A, H<mo::impl_enforce<B>>>("portable enforced", F, ANY, false); hash_judge<W, A, H<mo::impl_runtime<void>, mo::impl_enforce<void>, mo::impl_cpltime<void>>>("void options", F, ANY);
        custom<H<mo::impl_chooser<hooks_hash<W>>, mo::impl_invoker<calls_hash>>>("chooser and invoker", F, FREE); custom<H<mo::impl_invoker<calls_hash>, mo::digest_size<12>, mo::impl_chooser<hooks_hash<W>>, mo::impl_runtime<I<3>>>>("invoker, size, chooser, run time", 12, 3); custom<H<mo::impl_runtime<I<3, r_other>>, mo::impl_invoker<calls_hash>, mo::impl_chooser<hooks_hash<W>>>>("chooser, unmet run time", F, FREE);
        // compile time
        using M = I<2, none, MK>; constexpr auto plain = chash<H<>, 290>(); constexpr auto marked = chash<H<mo::impl_cpltime<M>>, 290>();
        const_judge<plain>("compile time, no option", [&] { auto w = ref::hash(A, cmsg.data(), 290); return w; }());
        const_judge<chash<H<mo::impl_enforce<M>>, 290>()>("compile time with an enforced run time implementation", plain); const_judge<chash<H<mo::impl_runtime<M>>, 290>()>("compile time with a run time implementation", plain);
        const_judge<chash<H<mo::impl_runtime<I<0, r_sse3>>, mo::impl_cpltime<M>, mo::impl_enforce<I<1>>>, 290>()>("compile time, all three", marked); const_judge<chash<H<mo::impl_enforce<I<1>>, mo::impl_runtime<I<0>>, mo::impl_cpltime<M>>, 290>()>("compile time, all three in another order", marked);
        const_judge<marked>("compile time, marked implementation", now([] { return chash<H<mo::impl_enforce<M>>, 290>(); })); const_judge<chash<H<mo::impl_cpltime<I<2, r_other, MK>>>, 290>()>("compile time, foreign processor", marked); const_judge<chash<H<mo::impl_cpltime<I<2, r_all, MK>>>, 290>()>("compile time, processor needs", marked);
        what = "compile time, marked implementation"; if (plain == marked) bad("not used");
        { what = "run time of a compile time implementation"; clear(); auto d = now([] { return chash<H<mo::impl_cpltime<M>>, 290>(); }); if (d != plain) bad("digest differs"); if (hits[2]) bad("used"); }
    }
    template<class X> static void custom(const char* w, size_t D, int by)
    {
        what = w; if (X::digest_size != D) { bad("digest size"); return; }
        for (size_t n : {0, 200, 5000}) { u8 d[64]; auto want = ref::hash(A, msg.data(), n); clear(); u64 from = asm_entries(); size_t r = mp::hash::digest<X>(reinterpret_cast<const char*>(msg.data()), n, d); if (r != D || memcmp(d, want.data(), D)) bad("wrong digest"); if (!hits[5] || !hits[7]) bad("invoker or chooser not used"); (void)from; if (by >= 0 && hits[by] != hits[7]) bad("run time implementation not used"); if (by == FREE && (hits[0] || hits[1] || hits[2] || hits[3])) bad("an implementation that may not be used was"); }
    }
    template<class R> static void one()
    {
        const int rt = met<R>() ? 0 : ANY; using E = mo::impl_enforce<I<1>>; using ER = mo::impl_enforce<I<0, R>>; using P = mo::impl_runtime<I<0, R>>; using K = mo::impl_cpltime<I<2, R, MK>>; using D = mo::digest_size<11>;
        hash_judge<W, A, H<ER>>("enforced", F, 0); hash_judge<W, A, H<P>>("run time", F, rt); hash_judge<W, A, H<K>>("compile time only", F, ANY);
        hash_judge<W, A, H<E, P>>("enforced, run time", F, 1); hash_judge<W, A, H<P, E>>("run time, enforced", F, 1); hash_judge<W, A, H<P, K>>("run time, compile time", F, rt); hash_judge<W, A, H<K, P>>("compile time, run time", F, rt);
        hash_judge<W, A, H<P, K, D>>("run time, compile time, size", 11, rt); hash_judge<W, A, H<D, P, K>>("size, run time, compile time", 11, rt); hash_judge<W, A, H<K, D, P>>("compile time, size, run time", 11, rt); hash_judge<W, A, H<D, ER>>("size, enforced", 11, 0); hash_judge<W, A, H<ER, D>>("enforced, size", 11, 0);
        hash_judge<W, A, H<E, K, D, P>>("enforced, compile time, size, run time", 11, 1); hash_judge<W, A, H<P, D, K, E>>("run time, size, compile time, enforced", 11, 1); hash_judge<W, A, H<mo::impl_enforce<void>, P>>("enforce nothing, run time", F, rt);
    }
};
struct poly_tests
{
    static constexpr unsigned MK = 0x40;
    template<class... R> static void all()
    {
        (one<R>(), ...); poly_judge<mp::mac::poly_1305<>>("no option", 16, ANY); poly_judge<mp::mac::poly_1305<mo::digest_size<5>>>("size", 5, ANY); poly_judge<mp::mac::poly_1305<mo::impl_runtime<void>, mo::impl_cpltime<void>>>("void options", 16, ANY);
        using X = mp::mac::poly_1305<mo::impl_chooser<hooks_poly>, mo::impl_invoker<calls_poly>>; using Y = mp::mac::poly_1305<mo::impl_runtime<PI<3>>, mo::impl_invoker<calls_poly>, mo::impl_chooser<hooks_poly>>;
        auto custom = [&]<class M>(std::type_identity<M>, const char* w, int by) { what = w; u8 d[16]; clear(); mp::mac::digest<M>(&msg[3], 32, msg.data(), 1000, d); if (ref::poly1305(&msg[3], msg.data(), 1000) != bytes(d, d + 16)) bad("wrong tag"); if (!hits[5] || !hits[7]) bad("invoker or chooser not used"); if (by >= 0 && hits[by] != hits[7]) bad("run time implementation not used"); };
        custom(std::type_identity<X>{}, "chooser, invoker", FREE); custom(std::type_identity<Y>{}, "run time, invoker, chooser", 3);
        using M = PI<2, none, MK>; using P = mp::mac::poly_1305<>; constexpr auto plain = cmac<P, 200>(); constexpr auto marked = cmac<mp::mac::poly_1305<mo::impl_cpltime<M>>, 200>();
        const_judge<plain>("compile time, no option", ref::poly1305(cmsg.data() + 9, cmsg.data(), 200)); const_judge<cmac<mp::mac::poly_1305<mo::impl_enforce<M>>, 200>()>("compile time with an enforced run time implementation", plain); const_judge<cmac<mp::mac::poly_1305<mo::impl_runtime<M>>, 200>()>("compile time with a run time implementation", plain);
        const_judge<cmac<mp::mac::poly_1305<mo::impl_enforce<PI<1>>, mo::impl_runtime<PI<0>>, mo::impl_cpltime<M>>, 200>()>("compile time, all three", marked); const_judge<marked>("compile time, marked implementation", now([] { return cmac<mp::mac::poly_1305<mo::impl_enforce<M>>, 200>(); }));
        what = "compile time, marked implementation"; if (plain == marked) bad("not used");
        { what = "run time of a compile time implementation"; clear(); auto d = now([] { return cmac<mp::mac::poly_1305<mo::impl_cpltime<M>>, 200>(); }); if (d != plain) bad("tag differs"); if (hits[2]) bad("used"); }
    }
    template<class R> static void one()
    {
        const int rt = met<R>() ? 0 : ANY; using E = mo::impl_enforce<PI<1>>; using ER = mo::impl_enforce<PI<0, R>>; using P = mo::impl_runtime<PI<0, R>>; using K = mo::impl_cpltime<PI<2, R, MK>>; using D = mo::digest_size<5>;
        poly_judge<mp::mac::poly_1305<ER>>("enforced", 16, 0); poly_judge<mp::mac::poly_1305<P>>("run time", 16, rt); poly_judge<mp::mac::poly_1305<K>>("compile time only", 16, ANY); poly_judge<mp::mac::poly_1305<E, P>>("enforced, run time", 16, 1); poly_judge<mp::mac::poly_1305<P, E>>("run time, enforced", 16, 1);
        poly_judge<mp::mac::poly_1305<P, K, D>>("run time, compile time, size", 5, rt); poly_judge<mp::mac::poly_1305<D, K, P>>("size, compile time, run time", 5, rt); poly_judge<mp::mac::poly_1305<K, D, P, E>>("compile time, size, run time, enforced", 5, 1); poly_judge<mp::mac::poly_1305<D, ER>>("size, enforced", 5, 0);
    }
};
struct cipher_tests
{
    template<class... O> using C = mp::cipher::chacha_20<O...>; static constexpr unsigned MK = 0x5a;
    template<class... R> static void all()
    {
        (one<R>(), ...); cipher_judge<C<>>("no option", ANY, 0); cipher_judge<C<mo::impl_runtime<md::cipher_chacha_impl_sw_ietf>>>("portable at run time", ANY, 0, false); cipher_judge<C<mo::impl_enforce<md::cipher_chacha_impl_sw_ietf>>>("portable enforced", ANY, 0, false); cipher_judge<C<mo::impl_runtime<void>, mo::impl_cpltime<void>>>("void options", ANY, 0);
        auto custom = [&]<class X>(std::type_identity<X>, const char* w, int by) { what = w; bytes k(&msg[40], &msg[72]), iv(16), o(3000), want(3000); memcpy(&iv[4], &msg[5], 12); ref::chacha_xor(k.data(), 0, &iv[4], msg.data(), 3000, want.data()); clear(); mp::cipher::apie<X> h(k, iv); h.encrypt(reinterpret_cast<const char*>(msg.data()), 3000, o.data()); if (o != want) bad("wrong output"); if (!hits[5] || !hits[7]) bad("invoker or chooser not used"); if (by >= 0 && !hits[by]) bad("run time implementation not used"); };
        custom(std::type_identity<C<mo::impl_chooser<hooks_chacha>, mo::impl_invoker<calls_chacha>>>{}, "chooser, invoker", FREE); custom(std::type_identity<C<mo::impl_invoker<calls_chacha>, mo::impl_runtime<CI<3, none, 8>>, mo::impl_chooser<hooks_chacha>>>{}, "invoker, run time, chooser", 3);
        using M = CI<2, none, 1, MK>; constexpr auto plain = cciph<C<>, 250>(); constexpr auto marked = cciph<C<mo::impl_cpltime<M>>, 250>(); bytes want(251); { uint32_t c; memcpy(&c, cmsg.data() + 50, 4); ref::chacha_xor(cmsg.data() + 9, c, cmsg.data() + 54, cmsg.data(), 250, want.data()); }
        const_judge<plain>("compile time, no option", want); auto wm = want; for (size_t i = 0; i < 250; i++) wm[i] ^= MK; const_judge<marked>("compile time, marked implementation", wm); const_judge<cciph<C<mo::impl_enforce<M>>, 250>()>("compile time with an enforced run time implementation", want); const_judge<cciph<C<mo::impl_runtime<M>>, 250>()>("compile time with a run time implementation", want);
        const_judge<cciph<C<mo::impl_runtime<CI<0>>, mo::impl_enforce<CI<1>>, mo::impl_cpltime<CI<2, r_all, 4, MK>>>, 250>()>("compile time, all three", wm);
    }
    template<class R> static void one()
    {
        const bool m = met<R>(); const int rt = m ? 0 : ANY; const u8 mk = m ? MK : 0; using E = mo::impl_enforce<CI<1, none, 2, MK>>; using P = mo::impl_runtime<CI<0, R, 1, MK>>; using P8 = mo::impl_runtime<CI<0, R, 8, MK>>; using K = mo::impl_cpltime<CI<2, R, 1, 0x33>>;
        cipher_judge<C<mo::impl_enforce<CI<0, R, 1, MK>>>>("enforced", 0, MK); cipher_judge<C<mo::impl_enforce<CI<0, R, 3, MK>>>>("enforced, three blocks at a time", 0, MK); cipher_judge<C<P>>("run time", rt, mk); cipher_judge<C<P8>>("run time, eight blocks at a time", rt, mk); cipher_judge<C<K>>("compile time only", ANY, 0);
        cipher_judge<C<E, P>>("enforced, run time", 1, MK); cipher_judge<C<P, E>>("run time, enforced", 1, MK); cipher_judge<C<P, K>>("run time, compile time", rt, mk); cipher_judge<C<K, P8>>("compile time, run time", rt, mk); cipher_judge<C<K, P, E>>("compile time, run time, enforced", 1, MK);
    }
};
static void child()
{
    struct sigaction sa{}; sa.sa_sigaction = on_ill; sa.sa_flags = SA_SIGINFO; sigaction(SIGILL, &sa, nullptr);
    have = usable();
    #if PART == 0
    hash_tests<mp::hash::sha_1_160, uint32_t, md::hash_sha_1_160_impl_sw, ref::SHA1>::all<REQS>();
    #elif PART == 1
    hash_tests<mp::hash::sha_2_256, uint32_t, md::hash_sha_2_256_impl_sw, ref::SHA256>::all<REQS>();
    #elif PART == 2
    hash_tests<mp::hash::sha_2_512, uint64_t, md::hash_sha_2_512_impl_sw, ref::SHA512>::all<REQS>();
    #elif PART == 3
    poly_tests::all<REQS>(); cipher_tests::all<REQS>();
    #else
    hash_tests<mp::hash::sha_2_224, uint32_t, md::hash_sha_2_256_impl_sw, ref::SHA224>::all<r_sse3, r_sha2>(); hash_tests<mp::hash::sha_2_384, uint64_t, md::hash_sha_2_512_impl_sw, ref::SHA384>::all<r_sse3, r_sha2>(); hash_tests<mp::hash::sha_2_512_224, uint64_t, md::hash_sha_2_512_impl_sw, ref::SHA512_224>::all<r_avx2>(); hash_tests<mp::hash::sha_2_512_256, uint64_t, md::hash_sha_2_512_impl_sw, ref::SHA512_256>::all<r_avx2>();
    #endif
    for (size_t i = 0; i < nroutines; i++) { SH->cnt[i] = vh_counters[i]; if (vh_counters[i] && (routines[i].req & ~have)) { what = "dispatch"; bad(std::string(routines[i].name) + " entered without its instructions"); } }
    SH->sig = uses;
    if (!err.empty()) { snprintf(SH->msg, sizeof SH->msg, "%s", err.c_str()); _exit(91); }
    _exit(90);
}
static void judge(const model& m)
{
    M = m; memset(SH, 0, sizeof *SH); current("model %s features=%#llx osxsave=%d xcr0=%u max_leaf=%u", m.name, (unsigned long long)m.f, m.osxsave, m.xcr0, m.max_leaf);
    fflush(nullptr); pid_t p = fork(); if (p < 0) { fprintf(stderr, "fork\n"); exit(2); }
    if (p == 0) { itimerval it{}; setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(120); child(); }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 90) {}
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 91) fail(strf("model %s: %s", m.name, SH->msg));
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "killed\n"); exit(2); }
    else fail(strf("model %s: process ended with status %#x", m.name, st));
    eval(sigs({m.f, m.osxsave, m.xcr0, m.max_leaf, SH->sig})); count("uses_judged", SH->sig); u64 e = 0; for (size_t i = 0; i < nroutines; i++) e += SH->cnt[i]; count("assembly_entries", e);
}
int main()
{
    init(); SH = static_cast<shared*>(mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    { rng r(11); msg = r.vec(6000); r.fill(msg.data(), msg.size()); }
    static const u64 F[] = {SSE3, SSSE3, SSE41, SSE42, AVX, AVX2, SHA}; const u64 ALL = SSE3 | SSSE3 | SSE41 | SSE42 | AVX | AVX2 | SHA;
    const model fixed[] = {{"everything", ALL, true, 7, 0xd, 0, true}, {"nothing", 0, false, 0, 7, 0, false}, {"no avx", ALL & ~(AVX | AVX2), true, 3, 0xd, 0, true}, {"avx off in the system", ALL, false, 0, 0xd, 0, true}, {"leaves limited", ALL, true, 7, 1, 0, true}, {"no sse 4", SSE3 | SSSE3 | SHA, false, 0, 7, 0, false}};
    cases("C30.fixed", sizeof fixed / sizeof *fixed, [&](rng&, u64 i) { judge(fixed[i]); sample(strf("model %s: %llu uses of option sets judged", fixed[i].name, (unsigned long long)SH->sig)); });
    cases("C30.random", tier(30, 600), [&](rng& r, u64 i)
    {
        model m; m.name = "subset"; u64 s = i < 7 ? 1ull << i : i < 14 ? 127 & ~(1ull << (i - 7)) : r.next(); for (unsigned k = 0; k < 7; k++) if (s >> k & 1) m.f |= F[k];
        m.osxsave = r.chance(4) ? false : true; m.xcr0 = r.chance(4) ? 3 : 7; m.max_leaf = r.chance(6) ? 1 : 0xd; if (i < 14) { m.osxsave = true; m.xcr0 = 7; m.max_leaf = 0xd; } m.noise = r.chance(2) ? r.next() : 0; judge(m);
    });
    return finish();
}
