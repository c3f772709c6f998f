// C16: what is left of secrets. Objects: the storage of a destroyed object has to be the same whatever secrets it worked on.
// One-shot functions: the stack they ran on is searched for keys, one-time keys and derived blocks.
#include "prim.h"
#include <functional>
#include <new>
#include <ucontext.h>
using namespace vh;

// ---- storage ----
// Secrets lie at fixed addresses, so that pointers kept by objects are the same in every run.
static u8 arena[1 << 16]; static u8 outs[1 << 16];
struct env { rng st, sec; size_t at = 0; const u8* secret(size_t n) { at = (at + 63) & ~size_t(63); if (at + n > sizeof arena) at = 0; u8* p = arena + at; at += n; sec.fill(p, n); return p; } };

template<class T, bool RAW> struct hash_o { static void init(T& t, env&) { t.initialize(); } static void step(T& t, env& e) { size_t n = e.st.len(300); t.update(e.secret(n), n); } static void fin(T& t, env&) { if constexpr (RAW) t.finalize(); t.digest(outs); } };
template<class T, bool RAW> struct mac_o { static void init(T& t, env& e) { size_t n = e.st.below(150); if (e.st.chance(3)) n = 32; t.initialize(e.secret(n), n); } static void step(T& t, env& e) { size_t n = e.st.len(300); t.update(e.secret(n), n); } static void fin(T& t, env&) { if constexpr (RAW) t.finalize(); t.digest(outs); } };
template<class T, bool> struct hkdf_o { static void init(T& t, env& e) { size_t a = e.st.below(100), b = e.st.below(100), c = e.st.below(60); auto p = e.secret(a), q = e.secret(b), s = e.secret(c); t.initialize(p, a, q, b, s, c); } static void step(T& t, env& e) { t.derive(outs, e.st.below(100)); } static void fin(T& t, env& e) { step(t, e); } };
template<class T, bool> struct pbkdf_o { static void init(T& t, env& e) { size_t a = e.st.below(100), b = e.st.below(100); auto p = e.secret(a), q = e.secret(b); t.initialize(p, a, q, b, unsigned(1 + e.st.below(3))); } static void step(T& t, env& e) { t.derive(outs, e.st.below(100)); } static void fin(T& t, env& e) { step(t, e); } };
template<class T, bool> struct cipher_o { static void init(T& t, env& e) { auto p = e.secret(32), q = e.secret(16); t.initialize(p, 32, q, 16); } static void step(T& t, env& e) { size_t n = e.st.len(1200); auto p = e.secret(n); if (e.st.chance(2)) t.encrypt(p, n, outs); else t.decrypt(p, n, outs); } static void fin(T& t, env& e) { step(t, e); } };
template<class T, bool RAW> struct aead_o
{
    static void init(T& t, env& e) { auto p = e.secret(32), q = e.secret(12); t.initialize(p, 32, q, 12); if (e.st.chance(2)) { size_t n = e.st.len(100); t.aad(e.secret(n), n); } }
    static void step(T& t, env& e) { size_t n = e.st.len(1200); auto p = e.secret(n); if (e.st.chance(2)) t.encrypt(p, n, outs); else t.decrypt(p, n, outs); }
    static void fin(T& t, env& e) { if constexpr (RAW) t.finalize(); t.digest(outs); if constexpr (!RAW) { milo::error x; t.verify(e.secret(16), 16, x); } }
};

template<class T, class O> __attribute__((noinline)) void life(void* a, void* b, env& e)
{
    // op codes from the structure generator only
    T* x = new (a) T; bool used = false, two = false, fin = false; T* y = nullptr;
    unsigned n = unsigned(e.st.below(7));
    if (e.st.chance(12)) { x->~T(); return; }
    if constexpr (requires { x->initialize(); }) x->initialize(); else O::init(*x, e); used = true;
    for (unsigned k = 0; k < n; k++)
        switch (e.st.below(10))
        {
            case 0: O::init(*x, e); fin = false; break;
            case 1: if (two) y->~T(); y = new (b) T(*x); two = true; break;
            case 2: if (two) y->~T(); y = new (b) T(std::move(*x)); two = true; O::init(*x, e); fin = false; break;
            case 3: if (two) *y = *x; else { y = new (b) T; *y = *x; two = true; } break;
            case 4: if (!fin) { O::fin(*x, e); fin = true; } break;
            default: if (!fin) O::step(*x, e);
        }
    if (!fin && e.st.chance(2)) O::fin(*x, e);
    (void)used; if (two) { if (!fin && e.st.chance(2)) O::step(*y, e); y->~T(); } x->~T();
}
template<class T, class O> void storage(const char* name)
{
    cases((std::string("C16.storage.") + name).c_str(), tier(120, 6000), [&](rng& r, u64 i)
    {
        alignas(64) static u8 a[sizeof(T)], b[sizeof(T)], sa[sizeof(T)], sb[sizeof(T)]; u64 st = r.next(); u8 fillb = u8(r.next()); u64 changed = 0;
        for (unsigned v = 0; v < 3; v++)
        {
            memset(a, fillb, sizeof a); memset(b, fillb, sizeof b); env e{rng(st), rng(r.next())};
            asm volatile("" ::: "memory"); life<T, O>(a, b, e); asm volatile("" ::: "memory");
            if (v == 0) { memcpy(sa, a, sizeof a); memcpy(sb, b, sizeof b); for (size_t k = 0; k < sizeof a; k++) changed += a[k] != fillb; continue; }
            for (auto [x, y, w] : {std::tuple{a, sa, "object"}, std::tuple{b, sb, "copy"}})
            {
                size_t lo = sizeof(T), hi = 0, n = 0; for (size_t k = 0; k < sizeof(T); k++) if (x[k] != y[k]) { lo = std::min(lo, k); hi = k; n++; }
                if (n) { fail(strf("the storage of a destroyed %s depends on its secrets: %zu of %zu bytes, offsets %zu to %zu, for example %s", w, n, sizeof(T), lo, hi, hex(x + lo, std::min<size_t>(16, hi - lo + 1)).c_str())); return; }
            }
        }
        count("storage_bytes_compared", 2 * sizeof(T)); count("storage_bytes_erased", changed); eval(sigs({sig_of(name, strlen(name)), st})); if (i == 0) sample(strf("%s: %zu bytes of storage, %llu of them overwritten after destruction", name, sizeof(T), (unsigned long long)changed));
    });
}

// ---- stack ----
static constexpr size_t STK = 1 << 18; static u8* stk; static ucontext_t main_c, sub_c; static std::function<void()>* job;
static void entry() { (*job)(); }
static std::vector<std::pair<std::string, bytes>> needles;
static void on_stack(std::function<void()> f)
{
    if (!stk) stk = static_cast<u8*>(mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    memset(stk, 0x5c, STK); job = &f; getcontext(&sub_c); sub_c.uc_stack.ss_sp = stk; sub_c.uc_stack.ss_size = STK; sub_c.uc_link = &main_c; makecontext(&sub_c, entry, 0); swapcontext(&main_c, &sub_c);
}
static bytes swapped(const bytes& b, size_t w) { bytes o(b); for (size_t i = 0; i + w <= o.size(); i += w) std::reverse(o.begin() + long(i), o.begin() + long(i + w)); o.resize(o.size() / w * w); return o; }
// As it is, and as big endian words of 4 and 8 bytes.
static void need_plain(const char* what, bytes b) { needles.push_back({what, std::move(b)}); }
static void need(const char* what, bytes b) { needles.push_back({std::string(what) + " (words of 4)", swapped(b, 4)}); needles.push_back({std::string(what) + " (words of 8)", swapped(b, 8)}); need_plain(what, std::move(b)); }
// Each word of 4 bytes repeated over a vector.
static void need_wide(const char* what, const bytes& b) { for (size_t i = 0; i + 4 <= b.size(); i += 4) { bytes w; for (int k = 0; k < 4; k++) w.insert(w.end(), b.begin() + long(i), b.begin() + long(i + 4)); needles.push_back({std::string(what) + " (vector)", w}); } }
static constexpr size_t W = 16;
static void scan(const std::string& fn)
{
    size_t used = 0; while (used < STK && stk[used] == 0x5c) used++; count("stack_bytes_searched", STK - used); count("stack_secret_bytes"); 
    // Recorded by build: a vector register the compiler spilled is not the library's doing, so the check wants a leak in more than one build.
    static const char* tag = getenv("VH_TAG") ? getenv("VH_TAG") : "build"; std::vector<std::string> seen;
    for (auto& [what, n] : needles)
        for (size_t o = 0; o + W <= n.size(); o++)
        {
            if (memmem(stk + used, STK - used, n.data() + o, W)) { if (std::find(seen.begin(), seen.end(), what) == seen.end()) seen.push_back(what); break; }
            count("windows_searched");
        }
    for (auto& w : seen) { count(std::string("leak:") + tag + ":" + fn + " left " + w + " on the stack"); if (getenv("VH_SHOW")) fprintf(stderr, "LEAK %s %s\n", fn.c_str(), w.c_str()); }
    needles.clear();
}
static bytes uniq(rng& r, size_t n) { bytes b(n); r.fill(b.data(), n); return b; }
static bytes xored(bytes k, size_t n, u8 c) { k.resize(n); for (auto& x : k) x ^= c; return k; }

template<ref::alg A, class H> void stack_hash(const char* be)
{
    std::string nm = std::string(ref::aname(A)) + "." + be; constexpr size_t BL = A <= ref::SHA256 ? 64 : 128, D = H::digest_size;
    auto hkey = [&](const bytes& k) { return k.size() > BL ? ref::hash(A, k.data(), k.size()) : k; };
    auto hneed = [&](const bytes& k, const char* w) { need(w, k); bytes q = hkey(k); if (q.size() != k.size()) need_plain((std::string("hashed ") + w).c_str(), q); need((std::string(w) + " with the inner pad").c_str(), xored(q, q.size(), 0x36)); need((std::string(w) + " with the outer pad").c_str(), xored(q, q.size(), 0x5c)); };
    using M = prim::hmac<H>; using K = prim::hkdf<H>; using P = prim::pbkdf<H>;
    cases(("C16.stack.hmac." + nm).c_str(), tier(20, 400), [&](rng& r, u64 i)
    {
        bytes k = uniq(r, i % 3 == 0 ? 32 : 8 + r.below(BL * 2)), m = r.vec(r.len(300)), o(D), o2; bool shape = i & 1; hneed(k, "the key");
        on_stack([&] { if (shape) mp::mac::digest<M>(k, m, o); else mp::mac::digest<M>(k.data(), k.size(), m.data(), m.size(), o.data()); }); scan("mac::digest<hmac<" + nm + ">>");
        check_eq(o, ref::hmac(A, k.data(), k.size(), m.data(), m.size()), "tag"); eval(sigs({i, k.size(), m.size()}));
    });
    cases(("C16.stack.hkdf." + nm).c_str(), tier(20, 400), [&](rng& r, u64 i)
    {
        bytes k = uniq(r, 8 + r.below(BL * 2)), s = r.vec(r.below(80)), f = r.vec(r.below(80)); size_t n = 1 + r.below(5 * D); bytes o(n);
        need("the input key", k); bytes prk = ref::hmac(A, s.data(), s.size(), k.data(), k.size()); hneed(prk, "the pseudo random key"); bytes full = ref::hkdf(A, k.data(), k.size(), s.data(), s.size(), f.data(), f.size(), (n / D + 1) * D); need_plain("a derived block", full);
        on_stack([&] { if (i & 1) mp::kdf::derive<K>(k, s, f, o, n); else mp::kdf::derive<K>(k.data(), k.size(), s.data(), s.size(), f.data(), f.size(), o.data(), n); }); scan("kdf::derive<hkdf<" + nm + ">>");
        full.resize(n); check_eq(o, full, "key"); eval(sigs({i, k.size(), n}));
    });
    cases(("C16.stack.pbkdf2." + nm).c_str(), tier(20, 400), [&](rng& r, u64 i)
    {
        bytes k = uniq(r, 8 + r.below(BL * 2)), s = r.vec(r.below(80)); size_t n = 1 + r.below(4 * D); bytes o(n); unsigned it = unsigned(1 + r.below(4)); if (i < 4) it = unsigned(i + 1);
        hneed(k, "the password"); size_t nb = n / D + 1; for (unsigned q = 1; q <= it; q++) if (q == it || q == 1) need_plain("a derived block", ref::pbkdf2(A, k.data(), k.size(), s.data(), s.size(), q, nb * D));
        for (size_t b = 1; b <= (n + D - 1) / D; b++) { bytes u = s; for (int q = 3; q >= 0; q--) u.push_back(u8(b >> (8 * q))); for (unsigned q = 0; q < it; q++) { u = ref::hmac(A, k.data(), k.size(), u.data(), u.size()); need_plain("an intermediate block", u); } }
        on_stack([&] { if (i & 1) mp::kdf::derive<P>(k, s, it, o, n); else mp::kdf::derive<P>(k.data(), k.size(), s.data(), s.size(), it, o.data(), n); }); scan("kdf::derive<pbkdf_2<" + nm + ">>");
        check_eq(o, ref::pbkdf2(A, k.data(), k.size(), s.data(), s.size(), it, n), "key"); eval(sigs({i, k.size(), n}));
    });
}

int main()
{
    init();
    auto obj = [&](auto ad, const std::string& n, auto type, bool raw) { (void)ad; (void)type; (void)raw; (void)n; };
    (void)obj;
    #if PART < 3
    #define ONE(A) if (PART == (ref::A == ref::SHA1 || ref::A == ref::SHA224 || ref::A == ref::SHA256 ? 0 : ref::A == ref::SHA384 || ref::A == ref::SHA512 ? 1 : 2)) \
        prim::hash_backends<ref::A>([&](const char* be, auto t) { using H = typename decltype(t)::type; std::string n = std::string(ref::aname(ref::A)) + "." + be; \
            storage<mp::hash::apie<H>, hash_o<mp::hash::apie<H>, false>>(("hash." + n).c_str()); storage<H, hash_o<H, true>>(("rawhash." + n).c_str()); \
            using M = prim::hmac<H>; storage<mp::mac::apie<M>, mac_o<mp::mac::apie<M>, false>>(("hmac." + n).c_str()); storage<M, mac_o<M, true>>(("rawhmac." + n).c_str()); \
            using K = prim::hkdf<H>; storage<mp::kdf::apie<K>, hkdf_o<mp::kdf::apie<K>, false>>(("hkdf." + n).c_str()); storage<K, hkdf_o<K, true>>(("rawhkdf." + n).c_str()); \
            using P = prim::pbkdf<H>; storage<mp::kdf::apie<P>, pbkdf_o<mp::kdf::apie<P>, false>>(("pbkdf2." + n).c_str()); storage<P, pbkdf_o<P, true>>(("rawpbkdf2." + n).c_str()); \
            stack_hash<ref::A, H>(be); });
    FOR_ALG(ONE)
    #else
    storage<mp::mac::apie<prim::poly>, mac_o<mp::mac::apie<prim::poly>, false>>("poly"); storage<prim::poly, mac_o<prim::poly, true>>("rawpoly");
    cases("C16.stack.poly", tier(60, 2000), [&](rng& r, u64 i) { bytes k = uniq(r, 32), m = r.vec(r.len(300)), o(16); need("the key", k); on_stack([&] { if (i & 1) mp::mac::digest<prim::poly>(k, m, o); else mp::mac::digest<prim::poly>(k.data(), 32, m.data(), m.size(), o.data()); }); scan("mac::digest<poly_1305>"); check_eq(o, ref::poly1305(k.data(), m.data(), m.size()), "tag"); eval(sigs({i, m.size()})); });
    prim::cipher_backends([&](const char* be, auto t)
    {
        using C = typename decltype(t)::type; std::string n = be; storage<mp::cipher::apie<C>, cipher_o<mp::cipher::apie<C>, false>>(("cipher." + n).c_str()); storage<C, cipher_o<C, true>>(("rawcipher." + n).c_str());
        cases(("C16.stack.cipher." + n).c_str(), tier(60, 2000), [&](rng& r, u64 i)
        {
            bytes k = uniq(r, 32), v = r.vec(16), m = r.vec(r.len(1500)), o(m.size()), e(m.size()); need("the key", k); need_wide("the key", k); on_stack([&] { if (i & 1) { if (i & 2) mp::cipher::encrypt<C>(k, v, m, o); else mp::cipher::decrypt<C>(k, v, m, o); } else mp::cipher::encrypt<C>(k.data(), 32, v.data(), 16, m.data(), m.size(), o.data()); }); scan("cipher::encrypt<chacha_20>." + n);
            ref::u32 c = ref::u32(v[0] | v[1] << 8 | v[2] << 16) | ref::u32(v[3]) << 24; ref::chacha_xor(k.data(), c, v.data() + 4, m.data(), m.size(), e.data()); check_eq(o, e, "text"); eval(sigs({i, m.size()}));
        });
    });
    prim::aead_backends([&](const char* be, auto t)
    {
        using C = typename decltype(t)::type; std::string n = be; storage<mp::aead::apie<C>, aead_o<mp::aead::apie<C>, false>>(("aead." + n).c_str()); storage<C, aead_o<C, true>>(("rawaead." + n).c_str());
        cases(("C16.stack.aead." + n).c_str(), tier(60, 2000), [&](rng& r, u64 i)
        {
            bytes k = uniq(r, 32), v = r.vec(12), a = r.vec(r.len(100)), m = r.vec(r.len(1500)), o(m.size()), tag(16), p(m.size()); u8 otk[64]; ref::chacha_block(k.data(), 0, v.data(), otk);
            auto sec = [&] { need("the key", k); need_wide("the key", k); need("the one-time key", bytes(otk, otk + 32)); bytes cl(otk, otk + 16); for (int q = 0; q < 16; q++) { if (q % 4 == 3) cl[size_t(q)] &= 15; if (q && q % 4 == 0) cl[size_t(q)] &= 252; } need("the clamped one-time key", cl); };
            sec(); on_stack([&] { if (i & 1) mp::aead::encrypt<C>(k, v, a, m, o, tag); else mp::aead::encrypt<C>(k.data(), 32, v.data(), 12, a.data(), a.size(), m.data(), m.size(), o.data(), tag.data()); }); scan("aead::encrypt." + n);
            if (i % 3 == 0) tag[r.below(16)] ^= 1;
            milo::error er; sec(); on_stack([&] { if (i & 1) mp::aead::decrypt<C>(k, v, a, o, tag, p, er); else mp::aead::decrypt<C>(k.data(), 32, v.data(), 12, a.data(), a.size(), o.data(), o.size(), tag.data(), 16, p.data(), er); }); scan("aead::decrypt." + n);
            if (bool(er) != (i % 3 == 0)) fail("verdict"); check_eq(p, m, "text"); eval(sigs({i, m.size()}));
        });
    });
    #endif
    return finish();
}
