// C06 for counts no real hash reaches: PBKDF2 over pseudo random functions of our own, which the library accepts in place of HMAC and which take a few
// nanoseconds, judged by the formula of RFC 8018. Iteration counts up to 2^32-1, block numbers beyond 2^24 (thorough: up to 2^32-1, the last of the RFC), single
// outputs of more than 2^32 bytes.
#include "prim.h"
#include <sys/mman.h>
#include <thread>
using namespace vh;

// A function of D bytes. The message may come in any pieces.
template<size_t D> struct fn
{
    struct properties { using mac = int; using prf = int; };
    static constexpr size_t key_size = 0, digest_size = D;
    u64 h = 0; u8 b[8]{}; unsigned n = 0;
    static inline u64 stir(u64 x) { x *= 0x9fb21c651e98df25ull; return x ^ (x >> 29); }
    template<class T> void initialize(const T* p, size_t k) noexcept(true) { h = 0x243f6a8885a308d3ull; n = 0; feed(p, k); h = stir(h + 77 + n); for (unsigned i = 0; i < n; i++) h = stir(h ^ b[i]); n = 0; }
    template<class T> void feed(const T* p, size_t k) noexcept(true) { while (k) { if (!n && k >= 8) { u64 x; memcpy(&x, p, 8); h = stir(h ^ x); p += 8; k -= 8; } else { b[n++] = u8(*p++); k--; if (n == 8) { u64 x; memcpy(&x, b, 8); h = stir(h ^ x); n = 0; } } } }
    template<class T> void update(const T* p, size_t k) noexcept(true) { feed(p, k); }
    void finalize() noexcept(true) { for (unsigned i = 0; i < n; i++) h = stir(h ^ b[i]); h = stir(h + n); n = 0; }
    template<class T> size_t digest(T* p, size_t k = D) const noexcept(true) { k = std::min(k, D); for (size_t i = 0; i < k; i += 8) { u64 x = i ? stir(h + i) : h; memcpy(p + i, &x, std::min<size_t>(8, k - i)); } return k; }
};
template<size_t D> static void block(const bytes& key, const bytes& salt, uint32_t i, uint32_t it, u8* out)
{
    fn<D> f; u8 c[4] = {u8(i >> 24), u8(i >> 16), u8(i >> 8), u8(i)}; f.initialize(key.data(), key.size()); f.update(salt.data(), salt.size()); f.update(c, 4); f.finalize(); f.digest(out);
    if (it == 1) return;
    if constexpr (D > 8) abort();
    u64 u, t; memcpy(&u, out, 8); t = u; fn<D> z; z.initialize(key.data(), key.size()); const u64 h0 = z.h;
    for (uint32_t j = 1; j < it; j++) { u = fn<D>::stir(fn<D>::stir(h0 ^ u)); t ^= u; }
    memcpy(out, &t, 8);
}
template<size_t D> using kdf = mp::kdf::pbkdf_2<fn<D>>;

int main()
{
    init();
    static const uint32_t counts[] = {0xffffffff, 0x80000001, (1u << 24) + 1, (1u << 25) - 1, 1u << 20};
    for (int k = 0; k < 5; k++) cases((std::string(k < 2 ? "C06.prf.max." : "C06.prf.iter.") + std::to_string(k)).c_str(), k < 2 ? 1 : tier(3, 40), [&](rng& r, u64 i)
    {
        uint32_t it = k < 2 || !i ? counts[k] : counts[k] + uint32_t(r.below(counts[k] / 2)); if (k == 1) it += uint32_t(r.below(1000)); bytes key = r.vec(1 + r.below(20)), salt = r.vec(r.below(30)); u8 want[8], got[8]; current("%u iterations", it);
        std::thread t([&] { block<8>(key, salt, 1, it, want); }); if (k % 2) mp::kdf::derive<kdf<8>>(key.data(), key.size(), salt.data(), salt.size(), it, got, 8); else { mp::kdf::apie<kdf<8>> o(key, salt, it); o.derive(got, 3); o.derive(got + 3, 5); }
        t.join(); check_eq(got, 8, want, 8, "pbkdf2 of very many iterations"); count("iterations", it); eval(sigs({it, sig_of(want, 8)})); if (!i) sample(strf("%u iterations", it));
    });
    cases("C06.prf.blocks", 1, [&](rng& r, u64)
    {
        const u64 total = tier(u64(1) << 24, u64(0xfffffffe)) + tier(r.below(1 << 16), 1); bytes key = r.vec(20), salt = r.vec(9), o(1 << 22); mp::kdf::apie<kdf<8>> k(key, salt, 1); u64 pos = 0; u8 b[8];
        fn<8> base; base.initialize(key.data(), key.size()); base.update(salt.data(), salt.size());
        while (pos < total * 8)
        {
            size_t n = r.below(r.chance(2) ? 40 : o.size()); n = size_t(std::min<u64>(n, total * 8 - pos)); current("byte %llu, %zu bytes", (unsigned long long)pos, n); k.derive(o.data(), n); bool ok = true;
            for (size_t i = 0; i < n;) { u64 q = (pos + i) / 8; size_t f = (pos + i) % 8, m = std::min(8 - f, n - i); uint32_t c = uint32_t(q + 1); fn<8> x = base; u8 e[4] = {u8(c >> 24), u8(c >> 16), u8(c >> 8), u8(c)}; x.update(e, 4); x.finalize(); x.digest(b); if (memcmp(b + f, &o[i], m)) ok = false; i += m; }
            if (!ok) { fail(strf("pbkdf2: output from byte %llu on differs", (unsigned long long)pos)); break; } pos += n; eval(sigs({pos, n}), n > 0);
        }
        count("blocks", pos / 8); sample(strf("%llu blocks in pieces", (unsigned long long)(pos / 8)));
    });
    cases("C06.prf.wide", tier(1, 4), [&](rng& r, u64)
    {
        // memory of 2^32 bytes and some more, in which every 64 MB are the same
        constexpr size_t D = 1 << 18, W = 1 << 26, N = 66; bytes key = r.vec(20), salt = r.vec(9); int fd = memfd_create("wide", 0); if (fd < 0 || ftruncate(fd, W)) { sample("no memory file"); return; }
        auto p = static_cast<u8*>(mmap(nullptr, size_t(N) * W, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (p == MAP_FAILED) { close(fd); return; }
        for (size_t i = 0; i < N; i++) if (mmap(p + i * W, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
        size_t n = (size_t(1) << 32) + r.below(W); current("%zu bytes in one call", n); static mp::kdf::apie<kdf<D>> k; k.initialize(key, salt, 1); memset(p, 0, W); size_t got = k.derive(p, n); if (got != n) fail(strf("derive of %zu bytes returns %zu", n, got));
        static u8 w[D]; size_t bad = 0;
        for (size_t j = 0; j < W / D - 1; j++) { size_t q = n / D - 1 - j; block<D>(key, salt, uint32_t(q + 1), 1, w); if (memcmp(w, p + q * D, D)) bad++; }
        block<D>(key, salt, uint32_t(n / D + 1), 1, w); if (memcmp(w, p + n / D * D, n % D)) bad++;
        u8 tail[100]; k.derive(tail, 100); bytes ww(w, w + D), nx(D); block<D>(key, salt, uint32_t(n / D + 2), 1, nx.data()); ww.insert(ww.end(), nx.begin(), nx.end()); if (memcmp(tail, &ww[n % D], 100)) bad++;
        if (bad) fail(strf("pbkdf2: %zu of the last blocks of an output of %zu bytes differ", bad, n)); count("bytes_in_one_call", n); eval(sigs({u64(n)})); munmap(p, size_t(N) * W); close(fd); sample(strf("%zu bytes in one call", n));
    });
    return finish();
}
