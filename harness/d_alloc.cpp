// C29: which calls take memory from the heap, and what is left of it when they fail.
#include "kinds.h"
#include <milo/literal.h>
#include <dlfcn.h>
#include <new>
#include <optional>
using namespace vh;
using namespace kd;
#ifndef PART
#define PART 0
#endif
#ifndef HALF
#define HALF 0
#endif
// ---- the heap, watched ----
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static bool watching = false, raising = false; static u64 taken = 0, total_watched = 0; static int64_t balance = 0, refuse = -1; static size_t last_size = 0;
static bool take(size_t n) { if (!watching || raising) return true; if (refuse >= 0 && refuse-- == 0) return false; taken++; balance++; last_size = n; return true; }
extern "C" void* malloc(size_t n) noexcept { if (!take(n)) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
extern "C" void* calloc(size_t a, size_t b) noexcept { if (!take(a * b)) { errno = ENOMEM; return nullptr; } return __libc_calloc(a, b); }
extern "C" void free(void* p) noexcept { if (p && watching && !raising) balance--; __libc_free(p); }
extern "C" void* realloc(void* p, size_t n) noexcept { if (p && watching && !raising) balance--; if (!take(n)) { if (p) balance++; errno = ENOMEM; return nullptr; } return __libc_realloc(p, n); }
extern "C" void* memalign(size_t a, size_t n) noexcept { if (!take(n)) { errno = ENOMEM; return nullptr; } return __libc_memalign(a, n); }
extern "C" void* aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) noexcept { void* q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
extern "C" void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) noexcept { if (watching && !raising) { taken++; last_size = n; } static auto real = reinterpret_cast<void* (*)(void*, size_t, int, int, int, off_t)>(dlsym(RTLD_NEXT, "mmap")); return real(a, n, p, f, fd, o); }
// An exception object has to live somewhere; that is the runtime's memory, not the library's.
namespace __cxxabiv1
{
    extern "C" void* __cxa_allocate_exception(size_t n) noexcept { static auto real = reinterpret_cast<void* (*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception")); bool o = raising; raising = true; void* p = real(n); raising = o; return p; }
    extern "C" void __cxa_free_exception(void* q) noexcept { static auto real = reinterpret_cast<void (*)(void*)>(dlsym(RTLD_NEXT, "__cxa_free_exception")); bool o = raising; raising = true; real(q); raising = o; }
}
struct watch { watch() { taken = 0; balance = 0; refuse = -1; watching = true; } ~watch() { watching = false; } };
// the end of a catch block frees the exception object
struct muted { bool o = raising; muted() { raising = true; } ~muted() { raising = o; } };
static const char* what_now = ""; static u64 variant = 0;
// Runs f, which must not touch the heap.
template<class F> static void none(const char* name, F&& f)
{
    what_now = name; current("%s, variant %llu", name, (unsigned long long)variant); u64 n; int64_t b; { watch w; f(); n = taken; b = balance; watching = false; }
    if (n || b) fail(strf("%s: took memory from the heap %llu times (last %zu bytes), %lld not returned [variant %llu]", name, (unsigned long long)n, last_size, (long long)b, (unsigned long long)variant));
    count("calls_watched"); eval(sigs({sig_of(name, strlen(name)), variant})); if (S.evals < 3) sample(name);
}
// Runs f, which reports a failure by exception and must not touch the heap for anything else.
template<class F> static void throws(const char* name, F&& f)
{
    current("%s", name); u64 n = 0; int64_t b = 0; bool t = false; std::optional<watch> w; w.emplace();
    try { f(); } catch (const milo::error&) { t = true; n = taken; b = balance; watching = false; }
    if (!t) { n = taken; b = balance; watching = false; } w.reset();
    if (!t) fail(strf("%s: no failure reported", name)); if (n || b) fail(strf("%s: took memory from the heap %llu times (last %zu bytes) for a failure, %lld not returned", name, (unsigned long long)n, last_size, (long long)b));
    count("failures_watched"); eval(sigs({sig_of(name, strlen(name)), variant, 2}));
}
// ---- containers with memory of their own ----
static std::array<u8, 1 << 20> arena; static size_t arena_top = 0; static int64_t arena_live = 0, arena_fuse = -1; static u64 arena_taken = 0; struct refused {};
static void* arena_get(size_t n) { if (arena_fuse >= 0 && arena_fuse-- == 0) throw refused{}; n = (n + 31) & ~size_t(31); if (arena_top + n > arena.size()) arena_top = 0; void* p = arena.data() + arena_top; arena_top += n; arena_live++; arena_taken++; return p; }
static void arena_put(void* p) { if (p) arena_live--; }
template<class T> struct arena_alloc { using value_type = T; arena_alloc() = default; template<class U> arena_alloc(const arena_alloc<U>&) {} T* allocate(size_t n) { return static_cast<T*>(arena_get(n * sizeof(T))); } void deallocate(T* p, size_t) { arena_put(p); } bool operator==(const arena_alloc&) const = default; };
template<class T> using avec = std::vector<T, arena_alloc<T>>;
template<class T> using astr = std::basic_string<T, std::char_traits<T>, arena_alloc<T>>;
template<class T> class adyn
{
    T* p = nullptr; size_t n = 0, c = 0;
public:
    using value_type = T; adyn() = default; adyn(const adyn& o) { reserve(o.n); for (; n < o.n; n++) p[n] = o.p[n]; } adyn(adyn&& o) noexcept : p(o.p), n(o.n), c(o.c) { o.p = nullptr; o.n = o.c = 0; } adyn& operator=(adyn o) noexcept { std::swap(p, o.p); std::swap(n, o.n); std::swap(c, o.c); return *this; } ~adyn() { arena_put(p); }
    T* data() noexcept { return p; } const T* data() const noexcept { return p; } size_t size() const noexcept { return n; }
    void reserve(size_t m) { if (m <= c) return; T* q = static_cast<T*>(arena_get(m * sizeof(T))); if (n) memcpy(q, p, n); arena_put(p); p = q; c = m; } void resize(size_t m, T v) { reserve(m); for (; n < m; n++) p[n] = v; n = m; }
};
// Runs f, which may take memory through its output container only; then makes each of these requests fail in turn.
// f gets no containers from outside: everything it made must be gone when it returns.
template<class F> static void only_out(const char* name, F&& f)
{
    none(name, [&] { arena_taken = 0; f(); }); u64 total = arena_taken; if (arena_live) { fail(strf("%s: %lld blocks of the output container were never released", name, (long long)arena_live)); arena_live = 0; }
    for (u64 i = 0; i < total; i++)
    {
        bool t = false; current("%s, request %llu of %llu refused", name, (unsigned long long)i, (unsigned long long)total); u64 n; int64_t b; arena_fuse = int64_t(i);
        { std::optional<watch> w; w.emplace(); try { f(); n = taken; b = balance; watching = false; } catch (const refused&) { t = true; n = taken; b = balance; watching = false; } }
        arena_fuse = -1; if (!t) fail(strf("%s: the refusal of its output container did not arrive", name)); if (n || b) fail(strf("%s: took memory from the heap when its output container could not grow", name));
        if (arena_live) { fail(strf("%s: %lld blocks left when the output container could not grow", name, (long long)arena_live)); arena_live = 0; } count("refusals"); eval(sigs({sig_of(name, strlen(name)), i, 3}));
    }
}
// The same with ordinary containers on the heap, whose requests are refused in turn.
template<class F> static void heap_out(const char* name, F&& f)
{
    u64 n; int64_t b; current("%s", name); { watch w; f(); n = taken; b = balance; watching = false; } if (b) fail(strf("%s: %lld blocks of the heap were never released", name, (long long)b));
    for (u64 i = 0; i < n; i++)
    {
        bool t = false; int64_t bal; current("%s, request %llu of %llu of the heap refused", name, (unsigned long long)i, (unsigned long long)n);
        { std::optional<watch> w; w.emplace(); refuse = int64_t(i); try { f(); bal = balance; watching = false; } catch (const std::bad_alloc&) { t = true; bal = balance; watching = false; } refuse = -1; }
        if (!t) fail(strf("%s: a refused request of the heap was not reported", name)); if (bal) fail(strf("%s: %lld blocks of the heap left when a request was refused", name, (long long)bal)); count("heap_refusals"); eval(sigs({sig_of(name, strlen(name)), i, 4}));
    }
    count("calls_watched"); eval(sigs({sig_of(name, strlen(name)), variant, 5}));
}
#define NM(T) (h + T).c_str()
#define GROUP(NAME, N) cases(strf("C29.%s", NAME).c_str(), (N), [&](rng& r, [[maybe_unused]] u64 i)
constexpr size_t MN = 37, KN = 45;
template<int K> constexpr int fixed_out = DYNS + K % (OUTS - DYNS);

template<class H> void hash_alloc(const char* nm)
{
    constexpr size_t D = H::digest_size; using W = mp::hash::apie<H>; std::string h = std::string("hash.") + nm + " ";
    GROUP(strf("hash.%s", nm).c_str(), tier(150, 3000))
    {
        bytes m = r.vec(r.len(1500)); std::vector<char> mc(m.begin(), m.end()); u8 o[D + 4]; sc os[D]; const u8* p = m.data(); size_t n = m.size(), k = r.below(D + 4); variant = i;
        none(NM("digest(ptr)"), [&] { mp::hash::digest<H>(p, n, o); mp::hash::digest<H>(p, n, o, k); mp::hash::digest<H>(mc.data(), n, os); });
        none(NM("raw object"), [&] { H a; a.initialize(); a.update(p, n); H b(a); a.finalize(); a.digest(o); b.update(mc.data(), n); b.finalize(); b.digest(os, k); a = b; a.digest(o); });
        none(NM("object"), [&] { W a; a.update(p, n); W b(a), c(std::move(a)); b.update(m); b.digest(o); c.digest(os, k); b.digest(o); b.initialize(); b.update(mc); b.digest(o); a = c; a.digest(o); });
        each<0, INS>([&](auto q)
        {
            using T = typename in_kind<q, MN>::type; using O = typename out_kind<fixed_out<q>, D>::type; using S = typename out_kind<DYNS + q % STATS, D>::type; const hold<T> x(r.vec(MN)); hold<O> y(bytes(D, 0)); variant = q;
            none(NM("digest(in, fixed)"), [&] { mp::hash::digest<H>(x.v, y.v); mp::hash::digest<H>(x.v, y.v, k); }); none(NM("digest<fixed>(in)"), [&] { (void)mp::hash::digest<H, S>(x.v); });
            none(NM("object, fixed"), [&] { W w; w.update(x.v); w.digest(y.v); w.digest(y.v, k); (void)w.template digest<S>(); });
            auto dyn = [&](const char* t, auto d) { using DY = decltype(d); only_out(NM(std::string("digest(in, ") + t), [&] { DY z; mp::hash::digest<H>(x.v, z); }); only_out(NM(std::string("digest(in, n, ") + t), [&] { DY z; mp::hash::digest<H>(x.v, z, k); }); only_out(NM(std::string("digest by value ") + t), [&] { (void)mp::hash::digest<H, DY>(x.v, k); }); only_out(NM(std::string("object ") + t), [&] { W w; w.update(x.v); DY z; w.digest(z); w.digest(z, k); (void)w.template digest<DY>(k); }); };
            if constexpr (q % 5 == 0) { dyn("avec)", avec<u8>()); dyn("adyn)", adyn<char>()); dyn("astr)", astr<char>()); }
            if constexpr (q % 5 == 1) { heap_out(NM("digest(in, vector)"), [&] { std::vector<u8> z; mp::hash::digest<H>(x.v, z); }); heap_out(NM("digest by value"), [&] { (void)mp::hash::digest<H, std::vector<char>>(x.v, D); }); heap_out(NM("object, vector"), [&] { W w; w.update(x.v); std::vector<sc> z; w.digest(z); w.digest(z, k); (void)w.template digest<std::vector<u8>>(k); }); }
        });
    });
}
template<class M> void mac_alloc(const char* nm)
{
    constexpr size_t D = M::digest_size, KS = M::key_size ? M::key_size : KN; using W = mp::mac::apie<M>; std::string h = std::string("mac.") + nm + " ";
    GROUP(strf("mac.%s", nm).c_str(), tier(120, 2000))
    {
        bytes m = r.vec(r.len(900)), key = r.vec(i % 4 ? KS : r.below(300)); std::vector<char> mc(m.begin(), m.end()); u8 o[D + 4]; sc os[D]; const u8 *p = m.data(), *kp = key.data(); size_t n = m.size(), kn = key.size(), k = r.below(D + 4); variant = i;
        none(NM("digest(ptr)"), [&] { mp::mac::digest<M>(kp, kn, p, n, o); mp::mac::digest<M>(kp, kn, mc.data(), n, os, k); });
        none(NM("raw object"), [&] { M a; a.initialize(kp, kn); a.update(p, n); M b(a); a.finalize(); a.digest(o); b.update(mc.data(), n); b.finalize(); b.digest(os, k); a = b; a.digest(o); });
        none(NM("object"), [&] { W a(kp, kn), z(key); a.update(p, n); W b(a), c(std::move(a)); b.update(m); b.digest(o); c.digest(os, k); b.initialize(key); b.update(mc); b.digest(o); z = c; z.digest(o); });
        each<0, INS>([&](auto q)
        {
            using TK = typename in_kind<q, KS>::type; using T = typename in_kind<(q * 7 + 3) % INS, MN>::type; using O = typename out_kind<fixed_out<q>, D>::type; using S = typename out_kind<DYNS + q % STATS, D>::type; const hold<TK> y(r.vec(KS)); const hold<T> x(r.vec(MN)); hold<O> z(bytes(D, 0)); variant = q;
            none(NM("digest(in, fixed)"), [&] { mp::mac::digest<M>(y.v, x.v, z.v); mp::mac::digest<M>(y.v, x.v, z.v, k); (void)mp::mac::digest<M, S>(y.v, x.v); }); none(NM("object, fixed"), [&] { W w(y.v); w.update(x.v); w.digest(z.v); w.digest(z.v, k); (void)w.template digest<S>(); w.initialize(y.v); });
            auto dyn = [&](const char* t, auto d) { using DY = decltype(d); only_out(NM(std::string("digest(in, ") + t), [&] { DY z2; mp::mac::digest<M>(y.v, x.v, z2); mp::mac::digest<M>(y.v, x.v, z2, k); }); only_out(NM(std::string("digest by value ") + t), [&] { (void)mp::mac::digest<M, DY>(y.v, x.v, k); }); only_out(NM(std::string("object ") + t), [&] { W w(y.v); w.update(x.v); DY z2; w.digest(z2); w.digest(z2, k); (void)w.template digest<DY>(k); }); };
            if constexpr (q % 6 == 0) { dyn("avec)", avec<u8>()); dyn("adyn)", adyn<char>()); }
            if constexpr (q % 6 == 1) { heap_out(NM("digest(in, vector)"), [&] { std::vector<u8> a; mp::mac::digest<M>(y.v, x.v, a); (void)mp::mac::digest<M, std::vector<char>>(y.v, x.v, D); }); heap_out(NM("object, vector"), [&] { W w(y.v); w.update(x.v); std::vector<sc> a; w.digest(a); w.digest(a, k); (void)w.template digest<std::vector<u8>>(k); }); }
        });
    });
}
template<class K, bool HK> void kdf_alloc(const char* nm)
{
    constexpr size_t D = 50; using W = mp::kdf::apie<K>; std::string h = std::string("kdf.") + nm + " "; constexpr unsigned IT = 2;
    GROUP(strf("kdf.%s", nm).c_str(), tier(60, 1000))
    {
        bytes a = r.vec(r.below(200)), b = r.vec(r.below(200)), c = r.vec(r.below(100)); u8 o[400]; size_t n = r.below(400); variant = i;
        none(NM("derive(ptr)"), [&] { if constexpr (HK) mp::kdf::derive<K>(a.data(), a.size(), b.data(), b.size(), c.data(), c.size(), o, n); else mp::kdf::derive<K>(a.data(), a.size(), b.data(), b.size(), IT, o, n); });
        none(NM("raw object"), [&] { K x; if constexpr (HK) x.initialize(a.data(), a.size(), b.data(), b.size(), c.data(), c.size()); else x.initialize(a.data(), a.size(), b.data(), b.size(), IT); x.derive(o, n / 2); K y(x); y.derive(o, n - n / 2); x = y; });
        none(NM("object"), [&] { W x; if constexpr (HK) x.initialize(a, b, c); else x.initialize(a, b, IT); x.derive(o, n / 2); W y(x), z(std::move(x)); y.derive(o, n - n / 2); z.derive(o, 3); });
        each<0, INS>([&](auto q)
        {
            using TA = typename in_kind<q, 33>::type; using TB = typename in_kind<(q * 7 + 3) % INS, 21>::type; using O = typename out_kind<fixed_out<q>, D>::type; using S = typename out_kind<DYNS + q % STATS, D>::type; const hold<TA> x(r.vec(33)); const hold<TB> y(r.vec(21)); const hold<TA> f(r.vec(33)); hold<O> z(bytes(D, 0)); variant = q;
            none(NM("derive(in, fixed)"), [&] { if constexpr (HK) { mp::kdf::derive<K>(x.v, y.v, f.v, z.v, D); (void)mp::kdf::derive<K, S>(x.v, y.v, f.v); } else { mp::kdf::derive<K>(x.v, y.v, IT, z.v, D); (void)mp::kdf::derive<K, S>(x.v, y.v, IT); } });
            auto mk = [&] { if constexpr (HK) return W(x.v, y.v, f.v); else return W(x.v, y.v, IT); }; none(NM("object, fixed"), [&] { W w = mk(); w.derive(z.v, D); (void)w.template derive<S>(); });
            auto dyn = [&](const char* t, auto d) { using DY = decltype(d); only_out(NM(std::string("derive(in, ") + t), [&] { DY o2; if constexpr (HK) mp::kdf::derive<K>(x.v, y.v, f.v, o2, 77); else mp::kdf::derive<K>(x.v, y.v, IT, o2, 77); }); only_out(NM(std::string("derive by value ") + t), [&] { if constexpr (HK) (void)mp::kdf::derive<K, DY>(x.v, y.v, f.v, 77); else (void)mp::kdf::derive<K, DY>(x.v, y.v, IT, 77); }); only_out(NM(std::string("object ") + t), [&] { W w = mk(); DY o2; w.derive(o2, 5); w.derive(o2, 90); (void)w.template derive<DY>(40); }); };
            if constexpr (q % 6 == 0) { dyn("avec)", avec<u8>()); dyn("adyn)", adyn<char>()); }
            if constexpr (q % 6 == 1) { heap_out(NM("derive(in, vector)"), [&] { std::vector<u8> o2; if constexpr (HK) mp::kdf::derive<K>(x.v, y.v, f.v, o2, 77); else mp::kdf::derive<K>(x.v, y.v, IT, o2, 77); }); heap_out(NM("object, vector"), [&] { W w = mk(); std::vector<sc> o2; w.derive(o2, 60); (void)w.template derive<std::vector<char>>(40); }); }
        });
    });
}
template<class C> void cipher_alloc(const char* nm)
{
    constexpr size_t N = 75; using W = mp::cipher::apie<C>; std::string h = std::string("cipher.") + nm + " ";
    GROUP(strf("cipher.%s", nm).c_str(), tier(150, 3000))
    {
        bytes k = r.vec(32), v = r.vec(16), m = r.vec(r.len(1500)), o(m.size()); const u8 *kp = k.data(), *vp = v.data(), *p = m.data(); u8* q0 = o.data(); size_t n = m.size(); variant = i;
        none(NM("crypt(ptr)"), [&] { mp::cipher::encrypt<C>(kp, 32, vp, 16, p, n, q0); mp::cipher::decrypt<C>(kp, 32, vp, 16, p, n, q0); }); none(NM("raw object"), [&] { C a; a.initialize(kp, 32, vp, 16); a.encrypt(p, n, q0); C b(a); b.decrypt(p, n, q0); a = b; }); none(NM("object"), [&] { W a(kp, 32, vp, 16), b(k, v); a.encrypt(p, n, q0); W c(a), d(std::move(b)); c.decrypt(p, n, q0); d.encrypt(p, n, q0); d.initialize(k, v); });
        each<0, INS>([&](auto q)
        {
            using TA = typename in_kind<q, 32>::type; using TB = typename in_kind<(q * 7 + 3) % INS, 16>::type; using TM = typename in_kind<(q * 3 + 1) % INS, N>::type; using O = typename out_kind<fixed_out<q>, N>::type; const hold<TA> x(r.vec(32)); const hold<TB> y(r.vec(16)); const hold<TM> z(r.vec(N)); hold<O> u(bytes(N, 0)); variant = q;
            none(NM("crypt(in, fixed)"), [&] { mp::cipher::encrypt<C>(x.v, y.v, z.v, u.v); mp::cipher::decrypt<C>(x.v, y.v, z.v, u.v); W w(x.v, y.v); w.encrypt(z.v, u.v); w.decrypt(z.v, u.v); });
            auto dyn = [&](const char* t, auto d) { using DY = decltype(d); only_out(NM(std::string("encrypt(in, ") + t), [&] { DY a; mp::cipher::encrypt<C>(x.v, y.v, z.v, a); mp::cipher::decrypt<C>(x.v, y.v, z.v, a); }); only_out(NM(std::string("encrypt by value ") + t), [&] { (void)mp::cipher::encrypt<C, DY>(x.v, y.v, z.v); (void)mp::cipher::decrypt<C, DY>(x.v, y.v, z.v); }); only_out(NM(std::string("object ") + t), [&] { W w(x.v, y.v); DY a; w.encrypt(z.v, a); w.decrypt(z.v, a); (void)w.template encrypt<DY>(z.v); (void)w.template decrypt<DY>(z.v); }); };
            if constexpr (q % 5 == 0) { dyn("avec)", avec<u8>()); dyn("adyn)", adyn<char>()); } if constexpr (q % 5 == 1) heap_out(NM("crypt, vector"), [&] { std::vector<u8> a; mp::cipher::encrypt<C>(x.v, y.v, z.v, a); W w(x.v, y.v); w.decrypt(z.v, a); (void)w.template encrypt<std::vector<char>>(z.v); (void)mp::cipher::decrypt<C, std::vector<char>>(x.v, y.v, z.v); });
        });
    });
}
template<class C> void aead_alloc(const char* nm)
{
    constexpr size_t N = 75, AN = 21; using W = mp::aead::apie<C>; std::string h = std::string("aead.") + nm + " ";
    GROUP(strf("aead.%s", nm).c_str(), tier(150, 3000))
    {
        bytes k = r.vec(32), v = r.vec(12), ad = r.vec(r.below(60)), m = r.vec(r.len(1000)), o(m.size()); auto s = ref::aead_seal(k.data(), v.data(), ad.data(), ad.size(), m.data(), m.size()); bytes ct = s.ct, tg(s.tag.begin(), s.tag.end()), bad(tg); bad[r.below(16)] ^= 1; u8 t[16]; const u8 *kp = k.data(), *vp = v.data(), *ap = ad.data(), *p = m.data(), *cp = ct.data(); u8* q0 = o.data(); size_t n = m.size(), an = ad.size(); milo::error e; variant = i;
        none(NM("encrypt(ptr)"), [&] { mp::aead::encrypt<C>(kp, 32, vp, 12, ap, an, p, n, q0, t); }); none(NM("decrypt(ptr)"), [&] { mp::aead::decrypt<C>(kp, 32, vp, 12, ap, an, cp, n, tg.data(), 16, q0, e); mp::aead::decrypt<C>(kp, 32, vp, 12, ap, an, cp, n, tg.data(), 16, q0); }); if (e) fail("authentic refused");
        none(NM("refusal(ptr)"), [&] { mp::aead::decrypt<C>(kp, 32, vp, 12, ap, an, cp, n, bad.data(), 16, q0, e); }); if (!e) fail("forged accepted"); throws(NM("refusal(ptr)"), [&] { mp::aead::decrypt<C>(kp, 32, vp, 12, ap, an, cp, n, bad.data(), 16, q0); });
        none(NM("raw object"), [&] { C a; a.initialize(kp, 32, vp, 12); a.aad(ap, an); a.encrypt(p, n, q0); C b(a); a.finalize(); a.digest(t); b.decrypt(p, n, q0); b.finalize(); b.digest(t, 5); });
        none(NM("object"), [&] { W a(kp, 32, vp, 12); a.aad(ap, an); a.decrypt(cp, n, q0); W b(a), c(std::move(a)); b.verify(tg, e); b.verify(bad, e); b.verify(tg.data(), 16, e); c.verify(tg); c.verify(tg.data(), 16); c.digest(t); c.digest(t, 7); c.initialize(k, v); });
        throws(NM("verify(in)"), [&] { W a(k, v); a.aad(ad); a.decrypt(cp, n, q0); a.verify(bad); }); throws(NM("verify(ptr)"), [&] { W a(k, v); a.aad(ad); a.decrypt(cp, n, q0); a.verify(bad.data(), 16); });
        throws(NM("refusal by value"), [&] { (void)mp::aead::decrypt<C, avec<u8>>(k, v, ad, ct, bad); }); throws(NM("refusal into a container"), [&] { avec<u8> z; mp::aead::decrypt<C>(k, v, ad, ct, bad, z); }); if (arena_live) { fail(strf("%s: %lld blocks of the output left after a refusal", nm, (long long)arena_live)); arena_live = 0; }
        each<0, INS>([&](auto q)
        {
            using TA = typename in_kind<q, 32>::type; using TB = typename in_kind<(q * 7 + 3) % INS, 12>::type; using TC = typename in_kind<(q * 11 + 8) % INS, AN>::type; using TM = typename in_kind<(q * 3 + 1) % INS, N>::type; using TG = typename in_kind<(q * 2 + 5) % INS, 16>::type; using O = typename out_kind<fixed_out<q>, N>::type; using OD = typename out_kind<fixed_out<q * 5 + 2>, 16>::type; using S = typename out_kind<DYNS + q % STATS, 16>::type;
            bytes kk = r.vec(32), vv = r.vec(12), aa = r.vec(AN), mm = r.vec(N); auto ss = ref::aead_seal(kk.data(), vv.data(), aa.data(), AN, mm.data(), N); const hold<TA> x(kk); const hold<TB> y(vv); const hold<TC> z(aa); const hold<TM> pm(mm), pc(ss.ct); bytes gt(ss.tag.begin(), ss.tag.end()), gb(gt); gb[q % 16] ^= 8; const hold<TG> tv(gt), tb(gb); hold<O> u(bytes(N, 0)); hold<OD> d(bytes(16, 0)); variant = q;
            none(NM("encrypt(in, fixed)"), [&] { mp::aead::encrypt<C>(x.v, y.v, z.v, pm.v, u.v, d.v); }); none(NM("decrypt(in, fixed)"), [&] { mp::aead::decrypt<C>(x.v, y.v, z.v, pc.v, tv.v, u.v); mp::aead::decrypt<C>(x.v, y.v, z.v, pc.v, tv.v, u.v, e); mp::aead::decrypt<C>(x.v, y.v, z.v, pc.v, tb.v, u.v, e); });
            none(NM("object, fixed"), [&] { W w(x.v, y.v); w.aad(z.v); w.decrypt(pc.v, u.v); w.verify(tv.v); w.verify(tb.v, e); w.digest(d.v); w.digest(d.v, 9); (void)w.template digest<S>(); w.initialize(x.v, y.v); w.encrypt(pm.v, u.v); }); throws(NM("refusal(in, fixed)"), [&] { mp::aead::decrypt<C>(x.v, y.v, z.v, pc.v, tb.v, u.v); });
            auto dyn = [&](const char* t2, auto dd) { using DY = decltype(dd); only_out(NM(std::string("encrypt(in, ") + t2), [&] { DY a, b; mp::aead::encrypt<C>(x.v, y.v, z.v, pm.v, a, b); }); only_out(NM(std::string("encrypt by value ") + t2), [&] { (void)mp::aead::encrypt<C, DY>(x.v, y.v, z.v, pm.v); }); only_out(NM(std::string("decrypt(in, ") + t2), [&] { DY a; mp::aead::decrypt<C>(x.v, y.v, z.v, pc.v, tv.v, a); mp::aead::decrypt<C>(x.v, y.v, z.v, pc.v, tb.v, a, e); (void)mp::aead::decrypt<C, DY>(x.v, y.v, z.v, pc.v, tv.v); (void)mp::aead::decrypt<C, DY>(x.v, y.v, z.v, pc.v, tb.v, e); }); only_out(NM(std::string("object ") + t2), [&] { W w(x.v, y.v); w.aad(z.v); DY a; w.encrypt(pm.v, a); w.decrypt(pm.v, a); (void)w.template encrypt<DY>(pm.v); (void)w.template decrypt<DY>(pm.v); w.digest(a); w.digest(a, 8); (void)w.template digest<DY>(8); }); };
            if constexpr (q % 6 == 0) { dyn("avec)", avec<u8>()); dyn("adyn)", adyn<char>()); } if constexpr (q % 6 == 1) heap_out(NM("crypt, vector"), [&] { std::vector<u8> a; std::vector<char> b; mp::aead::encrypt<C>(x.v, y.v, z.v, pm.v, a, b); mp::aead::decrypt<C>(x.v, y.v, z.v, pc.v, tb.v, b, e); (void)mp::aead::decrypt<C, std::vector<char>>(x.v, y.v, z.v, pc.v, tv.v); W w(x.v, y.v); w.decrypt(pc.v, a); w.digest(a); });
        });
    });
}
template<class C> void codec_alloc(const char* nm, std::string (*refe)(const u8*, size_t))
{
    constexpr size_t N = 34; constexpr size_t TN = std::is_same_v<C, prim::b16> ? 68 : 48; using W = mp::codec::apie<C>; std::string h = std::string(nm) + " ";
    GROUP(nm, tier(150, 3000))
    {
        bytes m = r.vec(r.len(700)); std::string t = refe(m.data(), m.size()), bad = t + "!"; if (t.size() > 5) { bad = t; bad[r.below(t.size() - 4)] = '!'; } bytes o(t.size() + 8); const u8* p = m.data(); u8* q0 = o.data(); size_t n = m.size(); milo::error e; variant = i;
        none(NM("encode(ptr)"), [&] { mp::codec::encode<C>(p, n, q0); C::encode(p, n, q0); W::encode(p, n, q0); (void)W::encode_size(p, n); }); none(NM("decode(ptr)"), [&] { mp::codec::decode<C>(t.data(), t.size(), q0, e); C::decode(t.data(), t.size(), q0, e); W::decode(t.data(), t.size(), q0); mp::codec::decode<C>(t.data(), t.size(), q0); (void)W::decode_size(t); });
        none(NM("refusal(ptr)"), [&] { mp::codec::decode<C>(bad.data(), bad.size(), q0, e); W::decode(bad.data(), bad.size(), q0, e); }); if (!e) fail("invalid text accepted"); throws(NM("refusal(ptr)"), [&] { mp::codec::decode<C>(bad.data(), bad.size(), q0); });
        throws(NM("refusal by value"), [&] { (void)mp::codec::decode<C, avec<u8>>(bad); }); throws(NM("refusal into a container"), [&] { adyn<u8> z; W::decode(bad, z); }); if (arena_live) { fail(strf("%s: %lld blocks of the output left after a refusal", nm, (long long)arena_live)); arena_live = 0; }
        each<0, INS>([&](auto q)
        {
            using TA = typename in_kind<q, N>::type; using TB = typename in_kind<q, TN>::type; using OA = typename out_kind<fixed_out<q>, TN>::type; using OB = typename out_kind<fixed_out<q>, N>::type; bytes mm = r.vec(N); auto ts = refe(mm.data(), N); const hold<TA> x(mm); const hold<TB> y(bytes(ts.begin(), ts.end())); ts[q % TN] = '!'; const hold<TB> yb(bytes(ts.begin(), ts.end())); hold<OA> u(bytes(TN, 0)); hold<OB> w(bytes(N, 0)); variant = q;
            none(NM("encode(in, fixed)"), [&] { mp::codec::encode<C>(x.v, u.v); W::encode(x.v, u.v); }); none(NM("decode(in, fixed)"), [&] { mp::codec::decode<C>(y.v, w.v); W::decode(y.v, w.v); mp::codec::decode<C>(y.v, w.v, e); mp::codec::decode<C>(yb.v, w.v, e); W::decode(yb.v, w.v, e); }); throws(NM("refusal(in, fixed)"), [&] { mp::codec::decode<C>(yb.v, w.v); });
            auto dyn = [&](const char* t2, auto d) { using DY = decltype(d); only_out(NM(std::string("encode(in, ") + t2), [&] { DY a; mp::codec::encode<C>(x.v, a); W::encode(x.v, a); (void)mp::codec::encode<C, DY>(x.v); }); only_out(NM(std::string("decode(in, ") + t2), [&] { DY a; mp::codec::decode<C>(y.v, a); mp::codec::decode<C>(y.v, a, e); mp::codec::decode<C>(yb.v, a, e); (void)mp::codec::decode<C, DY>(y.v); (void)W::template decode<DY>(y.v); }); };
            if constexpr (q % 5 == 0) { dyn("avec)", avec<u8>()); dyn("adyn)", adyn<char>()); dyn("astr)", astr<char>()); } if constexpr (q % 5 == 1) heap_out(NM("codec, vector"), [&] { std::vector<char> a; mp::codec::encode<C>(x.v, a); mp::codec::decode<C>(y.v, a); mp::codec::decode<C>(yb.v, a, e); (void)mp::codec::encode<C, std::string>(x.v); (void)mp::codec::decode<C, std::vector<u8>>(y.v); });
        });
    });
}
int main()
{
    // the first thing done in the process is watched as well
    {
        u8 in[200] = {1}, o[300]; u64 n; { watch w;
        #if PART <= 2
        mp::hash::digest<mp::hash::sha_1_160<>>(in, 200, o); mp::hash::digest<mp::hash::sha_2_256<>>(in, 200, o); mp::mac::digest<prim::hmac<mp::hash::sha_2_512<>>>(in, 20, in, 200, o); mp::kdf::derive<prim::hkdf<mp::hash::sha_2_224<>>>(in, 20, in, 30, in, 10, o, 100);
        #else
        mp::cipher::encrypt<mp::cipher::chacha_20<>>(in, 32, in, 16, in, 200, o); mp::aead::encrypt<mp::aead::chacha_20_poly_1305<>>(in, 32, in, 12, in, 7, in, 200, o, o + 250);
        #endif
        n = taken; watching = false; }
        init(); cases("C29.first", 1, [&](rng&, u64) { if (n) fail(strf("the first use took memory from the heap %llu times", (unsigned long long)n)); eval(1); });
    }
    try { throw refused{}; } catch (...) {}
    // the monitor itself
    { u64 n; int64_t b; { watch w; auto v = new std::vector<u8>(100); asm volatile("" :: "r"(v->data()) : "memory"); delete v; n = taken; b = balance; watching = false; } if (n != 2 || b) { fprintf(stderr, "the heap is not watched\n"); return 3; } }
    { u64 n; { watch w; try { throw refused{}; } catch (...) { n = taken; watching = false; } } if (n) { fprintf(stderr, "exceptions are counted\n"); return 3; } }
    #if PART <= 2
    #define AH(N) prim::hash_backends<ref::N>([&](const char* be, auto t) { using H = typename decltype(t)::type; std::string nm = std::string(ref::aname(ref::N)) + "." + be; hash_alloc<H>(nm.c_str()); if (be[0] == 'a') { mac_alloc<prim::hmac<H>>((std::string("hmac.") + nm).c_str()); kdf_alloc<prim::hkdf<H>, true>((std::string("hkdf.") + nm).c_str()); kdf_alloc<prim::pbkdf<H>, false>((std::string("pbkdf2.") + nm).c_str()); } });
    #endif
    #if PART == 0
    #if HALF == 0
    AH(SHA1)
    #else
    AH(SHA224)
    #endif
    #elif PART == 1
    #if HALF == 0
    AH(SHA256)
    #else
    AH(SHA384)
    #endif
    #elif PART == 2
    #if HALF == 0
    AH(SHA512) 
    #elif HALF == 1
    AH(SHA512_224)
    #else
    AH(SHA512_256)
    #endif
    #elif PART == 3
    prim::cipher_backends([&](const char* be, auto t) { cipher_alloc<typename decltype(t)::type>(be); }); mac_alloc<prim::poly>("poly"); codec_alloc<prim::b16>("base16", ref::b16e); codec_alloc<prim::b64>("base64", ref::b64e);
    #else
    prim::aead_backends([&](const char* be, auto t) { aead_alloc<typename decltype(t)::type>(be); });
    #endif
    return finish();
}
