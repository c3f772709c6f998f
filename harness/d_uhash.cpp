// C03, C05, C06 over hash functions the library does not have: its MAC and its KDFs take any type that meets the concept of a hash. Ours have blocks of 8 to 1024
// bytes and digests of 1 to 255, so every border of key, block and output lies elsewhere than with SHA; judged by the formulas of the RFCs over the same function.
#include "prim.h"
using namespace vh;

template<size_t B, size_t D> struct toy
{
    static_assert(D <= B);
    struct properties { using hash = int; };
    static constexpr size_t block_size = B, digest_size = D;
    u64 h = 0, n = 0;
    static u64 stir(u64 x) { x *= 0x9fb21c651e98df25ull; return x ^ (x >> 29); }
    void initialize() noexcept(true) { h = 0x13198a2e03707344ull; n = 0; }
    template<class T> void update(const T* p, size_t k) noexcept(true) { for (size_t i = 0; i < k; i++) h = stir(h ^ u8(p[i])); n += k; }
    void finalize() noexcept(true) { h = stir(h ^ n) + 1; }
    template<class T> size_t digest(T* p, size_t k = D) const noexcept(true) { k = std::min(k, D); for (size_t i = 0; i < k; i++) p[i] = T(stir(h + i) >> 40); return k; }
};
template<class H> static bytes hash(const bytes& m) { H h; h.initialize(); h.update(m.data(), m.size()); h.finalize(); bytes d(H::digest_size); h.digest(d.data()); return d; }
static bytes cat(const bytes& a, const bytes& b) { bytes c(a); c.insert(c.end(), b.begin(), b.end()); return c; }
template<class H> static bytes hmac(bytes k, const bytes& m)
{
    if (k.size() > H::block_size) k = hash<H>(k);
    k.resize(H::block_size); bytes i(k), o(k); for (auto& x : i) x ^= 0x36; for (auto& x : o) x ^= 0x5c;
    return hash<H>(cat(o, hash<H>(cat(i, m))));
}
template<class H> static bytes hkdf(const bytes& ikm, const bytes& salt, const bytes& info, size_t n)
{
    bytes prk = hmac<H>(salt, ikm), t, o; for (unsigned c = 1; o.size() < n; c++) { t = hmac<H>(prk, cat(cat(t, info), bytes{u8(c)})); o.insert(o.end(), t.begin(), t.end()); }
    o.resize(n); return o;
}
template<class H> static bytes pbkdf(const bytes& ikm, const bytes& salt, uint32_t it, size_t n)
{
    bytes o; for (uint32_t c = 1; o.size() < n; c++) { bytes u = hmac<H>(ikm, cat(salt, {u8(c >> 24), u8(c >> 16), u8(c >> 8), u8(c)})), t = u; for (uint32_t i = 1; i < it; i++) { u = hmac<H>(ikm, u); for (size_t j = 0; j < t.size(); j++) t[j] ^= u[j]; } o.insert(o.end(), t.begin(), t.end()); }
    o.resize(n); return o;
}
// A length next to a multiple of the block or of the digest, or any.
static size_t len(rng& r, size_t B, size_t D) { size_t v = r.chance(2) ? B * r.below(4) : r.chance(2) ? D * r.below(6) : r.below(3 * B); v += r.below(5); return v > 2 ? v - 2 : r.below(2); }
template<class K> static void draw(rng& r, K& k, bytes& o)
{
    size_t p = 0; while (p < o.size()) { size_t n = std::min<size_t>(o.size() - p, r.chance(6) ? 0 : r.chance(3) ? o.size() : 1 + r.below(o.size())); size_t g = k.derive(o.data() + p, n); if (g != n) { fail(strf("derive of %zu bytes returns %zu", n, g)); break; } p += n; }
}

template<size_t B, size_t D> static void one()
{
    using H = toy<B, D>; using M = mp::mac::hmac<H>; std::string s = strf("%zu.%zu", B, D); unsigned n = tier(150, 20000);
    cases(("C03.own." + s).c_str(), n, [&](rng& r, u64)
    {
        mp::mac::apie<M> m; bytes got(D);
        for (unsigned q = 0, e = 1 + unsigned(r.below(3)); q < e; q++)   // the same object again, with another key
        {
            bytes key = r.vec(len(r, B, D)), msg = r.vec(len(r, B, D)); current("block %zu digest %zu key %zu message %zu", B, D, key.size(), msg.size());
            m.initialize(key.data(), key.size()); for (size_t p = 0; p < msg.size();) { size_t k = r.chance(2) ? msg.size() - p : 1 + r.below(msg.size() - p); m.update(msg.data() + p, k); p += k; }
            size_t want = r.chance(3) ? r.below(D + 1) : D; got.assign(D, 0xa5); size_t g = m.digest(got.data(), want); if (g != want) fail(strf("digest of %zu bytes returns %zu", want, g));
            bytes w = hmac<H>(key, msg); check_eq(got.data(), want, w.data(), want, "hmac over a hash of the user's own"); eval(sigs({B, D, key.size(), msg.size(), sig_of(w.data(), D)}), want > 0);
        }
    });
    cases(("C05.own." + s).c_str(), n, [&](rng& r, u64)
    {
        bytes ikm = r.vec(len(r, B, D)), salt = r.vec(len(r, B, D)), info = r.vec(len(r, B, D)); size_t max = 255 * D, k = r.chance(4) ? max - r.below(std::min<size_t>(max, 3)) : r.chance(2) ? 1 + r.below(max) : 1 + r.below(6 * D); current("block %zu digest %zu ikm %zu salt %zu info %zu out %zu", B, D, ikm.size(), salt.size(), info.size(), k);
        mp::kdf::apie<mp::kdf::hkdf<M>> o; if (r.chance(2)) { o.initialize(salt, ikm, info); bytes x(1 + r.below(max)); draw(r, o, x); } o.initialize(ikm, salt, info); bytes got(k); draw(r, o, got);
        bytes w = hkdf<H>(ikm, salt, info, k); check_eq(got.data(), k, w.data(), k, "hkdf over a hash of the user's own"); eval(sigs({B, D, k, sig_of(w.data(), k)}));
    });
    cases(("C06.own." + s).c_str(), n / 2, [&](rng& r, u64)
    {
        bytes ikm = r.vec(len(r, B, D)), salt = r.vec(len(r, B, D)); uint32_t it = uint32_t(1 + r.below(r.chance(4) ? 300 : 5)); size_t k = 1 + r.below(r.chance(3) ? 600 * D : 6 * D); if (u64(it) * (k / D + 1) > 20000) k = D * 3 + 1; current("block %zu digest %zu ikm %zu salt %zu iterations %u out %zu", B, D, ikm.size(), salt.size(), it, k);
        mp::kdf::apie<mp::kdf::pbkdf_2<M>> o; if (r.chance(2)) { o.initialize(salt, ikm, 2); bytes x(1 + r.below(3 * D)); draw(r, o, x); } o.initialize(ikm, salt, it); bytes got(k); draw(r, o, got);
        bytes w = pbkdf<H>(ikm, salt, it, k); check_eq(got.data(), k, w.data(), k, "pbkdf2 over a hash of the user's own"); eval(sigs({B, D, it, k, sig_of(w.data(), k)}));
    });
}
int main() { init(); one<8, 1>(); one<8, 8>(); one<20, 13>(); one<64, 7>(); one<72, 72>(); one<100, 3>(); one<136, 32>(); one<136, 64>(); one<144, 28>(); one<512, 200>(); one<1024, 255>(); return finish(); }
