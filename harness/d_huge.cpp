// C01, C03 to C09 for lengths no machine can hold. The library lets its user supply the routine that goes over the blocks (option::impl_enforce).
// Ours goes over real blocks as the library's portable one does, and only counts those that lie beyond the end of a page, which do not exist.
// What remains is what the library does itself: cutting, buffering, counting, padding, and the lengths it writes into the last block.
// -DPART=<ref::alg>, or 7 for poly1305, chacha20 and the aead.
#include "prim.h"
#include <milo/option.h>
#include <pthread.h>
#include <csetjmp>
#include <malloc.h>
using namespace vh; namespace mo = milo::option; namespace md = mp::detail;

typedef unsigned __int128 u128;
static u8* VB; static u128 virt; static u64 calls; static uint32_t want_ctr; static u64 bad_ctr; static sigjmp_buf out_of_here; static u64 skipped;
// Code that goes over the blocks in many small batches is right, too, but cannot be followed here.
// Of n blocks of b bytes at p, those that are there; the rest is counted.
static size_t there(const void* p, size_t n, size_t b)
{
    auto q = static_cast<const u8*>(p); size_t k = q >= VB ? 0 : std::min<size_t>(n, size_t(VB - q) / b); if (n == k) return n;
    virt += n - k; if (++calls > 200000) siglongjmp(out_of_here, 1); return k;
}

template<ref::alg A, class W> struct VI
{
    static constexpr size_t block_size = A <= ref::SHA256 ? 64 : 128;
    template<milo::meta::byte S> static constexpr auto blocks(size_t n, W* st, const S* s) noexcept(true) -> void { n = there(s, n, block_size); auto p = reinterpret_cast<const u8*>(s); for (size_t i = 0; i < n; i++, p += block_size) if constexpr (A == ref::SHA1) ref::comp1(st, p); else if constexpr (A <= ref::SHA256) ref::comp256(st, p); else ref::comp512(reinterpret_cast<u64*>(st), p); }
};
struct VP
{
    using B = md::mac_poly_1305_impl_sw; static constexpr size_t block_size = 16;
    template<milo::meta::byte S> static constexpr auto process(size_t n, const uint32_t* k, uint32_t* acc, uint32_t add, const S* s) noexcept(true) -> void { n = there(s, n, block_size); if (n) B::process(n, k, acc, add, s); }
};
struct VC
{
    using B = md::cipher_chacha_impl_sw_ietf; static constexpr size_t block_size = 64, block_ratio = 1;
    template<milo::meta::byte D, milo::meta::byte S> static constexpr auto transform(size_t n, const uint32_t* st, D* d, const S* s) noexcept(true) -> size_t
    {
        size_t k = there(s, n, 64); if (k < n) { if (st[12] + uint32_t(k) != want_ctr) bad_ctr += 1; want_ctr += uint32_t(n - k); }
        if (k) B::transform(k, st, d, s); return n;
    }
    template<milo::meta::byte D> static constexpr auto generate(size_t n, const uint32_t* st, D* d) noexcept(true) -> size_t { B::generate(n, st, d); return n; }
};

// A number of blocks: a power of two or a border of a counter of bytes or bits, and some around it.
static u64 blocks(rng& r, u64 max, unsigned lo = 3)
{
    unsigned top = 63 - unsigned(__builtin_clzll(max)); unsigned e = unsigned(lo + r.below(top - lo + 1)); u64 v = 1ull << e;
    switch (r.below(5)) { case 0: break; case 1: v += r.below(5); break; case 2: v -= r.below(5); break; case 3: v |= r.next() & (v - 1); break; default: v = r.chance(2) ? max - r.below(3) : (v << 1) - 1; }
    return std::max<u64>(2, std::min(v, max));
}
struct hist { std::vector<ref::piece> calls, ref; u128 virt = 0, total = 0; };
// Pieces of real bytes and pieces that end in blocks that are not there; limit: bytes in all.
static hist history(rng& r, u64 B, u128 limit, size_t before = 0)
{
    hist h; size_t fill = before % B; unsigned n = unsigned(1 + r.below(6));
    for (unsigned i = 0; i < n; i++)
    {
        if (r.chance(3)) { size_t k = r.below(3 * B); h.calls.push_back({VB - 1000 - r.below(1000), k}); h.ref.push_back(h.calls.back()); fill = (fill + k) % B; h.total += k; continue; }
        size_t soak = (B - fill) % B; if (r.chance(4)) soak += B * r.below(3); if (h.total + 8192 > limit) break; u128 room = limit - 4096 - h.total; u64 max = u64(std::min<u128>(room / B, ~u64(0) / B - 4)); if (max < 8) break;
        u64 k = blocks(r, max); bool edge = r.chance(4);   // a total next to a power of two
        if (edge) { u128 b = u128(1) << (13 + r.below(54)), t = h.total + soak + B; if (t + 2 * B <= b && (b - t) / B <= max) k = u64((b - t) / B); else edge = false; }
        h.calls.push_back({VB - soak, soak + k * B}); h.ref.push_back({VB - soak, soak}); h.ref.push_back({ref::VIRT, k * B}); h.virt += k; h.total += soak + u128(k) * B; fill = 0;
        if (edge) { size_t m = B - 2 + r.below(5); h.calls.push_back({VB - 1000 - r.below(1000), m}); h.ref.push_back(h.calls.back()); fill = m % B; h.total += m; }
    }
    if (r.chance(2)) { size_t k = r.below(2 * B); h.calls.push_back({VB - 700, k}); h.ref.push_back(h.calls.back()); h.total += k; }
    return h;
}
template<class F> void guarded(F f) { virt = 0; calls = 0; bad_ctr = 0; if (sigsetjmp(out_of_here, 0)) { skipped += 1; return; } f(); }
static void note(u128 total) { if (total >> 64) count("totals_above_2^64"); else if (total >> 61) count("totals_above_2^61"); else if (total >> 32) count("totals_above_2^32"); }
static void counted(u128 want, const char* w) { if (virt != want) fail(strf("%s: %llu:%llu blocks seen, %llu:%llu given", w, (unsigned long long)(virt >> 64), (unsigned long long)virt, (unsigned long long)(want >> 64), (unsigned long long)want)); }
static std::string show(const hist& h) { std::string s; for (auto& c : h.calls) s += strf("%zu@%d ", c.n, int(c.p - VB)); return s; }

// C22: between two calls the object is copied, assigned or moved, and the one left behind is used for something else. C27: it has a history of its own, and is initialised again.
static const char* MODES[] = {"", "C22.huge.", "C27.huge."};
template<class O, class J> void moved(rng& r, O& o, J junk)
{
    if (r.chance(2)) return; O t(o); junk(o);
    switch (r.below(3)) { case 0: o = t; junk(t); break; case 1: { O u(std::move(t)); O v; junk(v); v = u; junk(u); o = std::move(v); break; } default: o = std::move(t); }
}
static void fresh() { virt = 0; bad_ctr = 0; }

template<ref::alg A, class W, template<class...> class HT> void hashes()
{
    using H = HT<mo::impl_enforce<VI<A, W>>>; using M = prim::hmac<H>; const size_t BS = ref::blen(A), D = ref::dlen(A); const u128 limit = BS == 64 ? u128(1) << 61 : u128(1) << 125;
    auto g = [&](const char* n) { return std::string(n) + ref::aname(A); };
    for (int mode = 0; mode < 3; mode++) cases(g(mode ? MODES[mode] : "C01.huge.").c_str(), tier(mode ? 6000 : 12000, 400000), [&](rng& r, u64 i)
    {
        hist pre; if (mode == 2) pre = history(r, BS, limit);
        auto h = history(r, BS, limit); auto list = show(h); current("%s", list.c_str()); u8 d[64], want[64]; ref::hash_pieces(A, h.ref.data(), int(h.ref.size()), want);
        guarded([&] { if (!mode && h.calls.size() == 1 && r.chance(2)) { mp::hash::digest<H>(h.calls[0].p, h.calls[0].n, d); } else { using O = mp::hash::apie<H>; O o; auto junk = [&](O& x) { x.update(VB - 300, r.below(200)); }; if (mode == 2) { for (auto& c : pre.calls) o.update(c.p, c.n); if (r.chance(2)) o.digest(d); o.initialize(); fresh(); } for (auto& c : h.calls) { o.update(reinterpret_cast<const char*>(c.p), c.n); if (mode == 1) moved(r, o, junk); } o.digest(d); } check_eq(d, D, want, D, "digest of a huge message"); counted(h.virt, "hash"); eval(sig_of(want, D), h.virt > 0); note(h.total); if (i < 2) sample(strf("%s %s", ref::aname(A), list.c_str())); });
    });
    for (int mode = 0; mode < 3; mode++) cases(g(mode ? (std::string(MODES[mode]) + "hmac.").c_str() : "C03.huge.").c_str(), tier(mode ? 3000 : 8000, 200000), [&](rng& r, u64 i)
    {
        hist pre; if (mode == 2) pre = history(r, BS, limit - BS);
        bool hk = r.chance(2); auto h = history(r, BS, limit - BS); u64 kb = blocks(r, ~u64(0) / BS / (BS == 64 ? 8 : 1) - 2); bytes k = r.vec(r.below(300)); size_t kn = hk ? kb * BS : k.size(); const u8* kp = hk ? VB : k.data();
        auto list = show(h); current("key of %zu: %s", kn, list.c_str()); u8 key[128]{}, ip[128], op[128], in[64], want[64], d[64];
        if (kn > BS) { ref::piece x{hk ? ref::VIRT : k.data(), kn}; ref::hash_pieces(A, &x, 1, key); } else if (kn) memcpy(key, k.data(), kn);
        for (size_t j = 0; j < BS; j++) { ip[j] = key[j] ^ 0x36; op[j] = key[j] ^ 0x5c; }
        std::vector<ref::piece> v{{ip, BS}}; v.insert(v.end(), h.ref.begin(), h.ref.end()); ref::hash_pieces(A, v.data(), int(v.size()), in); ref::piece w[2] = {{op, BS}, {in, D}}; ref::hash_pieces(A, w, 2, want);
        guarded([&] { if (!mode && h.calls.size() == 1) mp::mac::digest<M>(kp, kn, h.calls[0].p, h.calls[0].n, d); else { using O = mp::mac::apie<M>; O o(kp, kn); auto junk = [&](O& x) { x.update(VB - 300, r.below(200)); }; if (mode == 2) { for (auto& c : pre.calls) o.update(c.p, c.n); if (r.chance(2)) o.digest(d); fresh(); o.initialize(kp, kn); } for (auto& c : h.calls) { o.update(c.p, c.n); if (mode == 1) moved(r, o, junk); } o.digest(d); } check_eq(d, D, want, D, "mac of a huge message or key"); counted(h.virt + (hk ? kb : 0), "hmac"); eval(sig_of(want, D), virt > 0); note(h.total); if (i < 2) sample(strf("hmac %s key %zu %s", ref::aname(A), kn, list.c_str())); });
    });
    for (int p = 0; p < 2; p++) cases(g(p ? "C06.huge." : "C05.huge.").c_str(), tier(4000, 100000), [&](rng& r, u64 i)
    {
        bytes a = r.vec(r.below(300)), s = r.vec(r.below(300)), f = r.vec(r.below(100)); u64 lim = ~u64(0) / BS / (BS == 64 ? 8 : 1) - 4, na = blocks(r, lim), ns = blocks(r, lim), nf = blocks(r, lim); unsigned which = unsigned(1 + r.below(p ? 3 : 7));
        bool va = which & 1, vs = which & 2, vf = which & 4; size_t L = vf ? r.below(D) : r.below(4 * D); uint32_t it = uint32_t(1 + r.below(4)); bytes o(L), want; current("%s ikm %llu salt %llu info %llu out %zu", p ? "pbkdf2" : "hkdf", (unsigned long long)(va ? na * BS : a.size()), (unsigned long long)(vs ? ns * BS : s.size()), (unsigned long long)(vf ? nf * BS : f.size()), L);
        auto ap = va ? VB : a.data(), sp = vs ? VB : s.data(), fp = vf ? VB : f.data(); auto ra = va ? ref::VIRT : a.data(), rs = vs ? ref::VIRT : s.data(), rf = vf ? ref::VIRT : f.data(); size_t an = va ? na * BS : a.size(), sn = vs ? ns * BS : s.size(), fn = vf ? nf * BS : f.size();
        want = p ? ref::pbkdf2(A, ra, an, rs, sn, it, L) : ref::hkdf(A, ra, an, rs, sn, rf, fn, L);
        guarded([&] { if (p) mp::kdf::derive<prim::pbkdf<H>>(ap, an, sp, sn, it, o.data(), L); else mp::kdf::derive<prim::hkdf<H>>(ap, an, sp, sn, fp, fn, o.data(), L); check_eq(o, want, p ? "pbkdf2 of huge inputs" : "hkdf of huge inputs"); eval(sigs({which, na, ns, nf, L, it}), L > 0); if (i < 1) sample(strf("%s %s inputs of up to %llu blocks", p ? "pbkdf2" : "hkdf", ref::aname(A), (unsigned long long)std::max(na, ns))); });
    });
}
static void others()
{
    using P = mp::mac::poly_1305<mo::impl_enforce<VP>>; using C = mp::cipher::chacha_20<mo::impl_enforce<VC>>; using E = md::aead_chacha_20_poly_1305<C, P>;
    for (int mode = 0; mode < 3; mode++) cases(mode ? (std::string(MODES[mode]) + "poly").c_str() : "C04.huge", tier(mode ? 10000 : 20000, 500000), [&](rng& r, u64 i)
    {
        hist pre; if (mode == 2) pre = history(r, 16, u128(1) << 66);
        auto h = history(r, 16, u128(1) << 66); auto k = r.vec(32); auto list = show(h); current("k=%s %s", hex(k).c_str(), list.c_str()); ref::poly p(k.data()); for (auto& c : h.ref) if (c.p != ref::VIRT) p.update(c.p, c.n); u8 want[16], d[16]; p.final(want);
        guarded([&] { if (!mode && h.calls.size() == 1) mp::mac::digest<P>(k.data(), 32, h.calls[0].p, h.calls[0].n, d); else { using O = mp::mac::apie<P>; O o(k); auto junk = [&](O& x) { x.update(VB - 300, r.below(200)); }; if (mode == 2) { for (auto& c : pre.calls) o.update(c.p, c.n); if (r.chance(2)) o.digest(d); o.initialize(k); fresh(); } for (auto& c : h.calls) { o.update(c.p, c.n); if (mode == 1) moved(r, o, junk); } o.digest(d); } check_eq(d, 16, want, 16, "tag of a huge message"); counted(h.virt, "poly1305"); eval(sig_of(want, 16), h.virt > 0); note(h.total); if (i < 2) sample("poly1305 " + list); });
    });
    static u8 save[4096];
    auto restore = [&] { memcpy(VB - 4096, save, 4096); }; memcpy(save, VB - 4096, 4096);
    // text in place; returns what has to be in the real part of each piece afterwards
    auto texts = [&](const hist& h, const u8* k, uint32_t ctr, const u8* nonce, std::vector<bytes>& o, std::vector<uint32_t>& at)
    {
        u128 pos = 0; for (auto& c : h.calls) { size_t real = c.p + c.n > VB || c.n > 4096 ? size_t(VB - c.p) : c.n; size_t lead = size_t(pos % 64); bytes x(lead + real), y(lead + real); if (real) memcpy(&x[lead], save + (c.p - (VB - 4096)), real); ref::chacha_xor(k, ctr + uint32_t(pos / 64), nonce, x.data(), x.size(), y.data()); o.emplace_back(y.begin() + long(lead), y.end()); pos += c.n; at.push_back(ctr + uint32_t((pos - (c.n - real)) / 64)); }
    };
    for (int mode = 0; mode < 3; mode++) cases(mode ? (std::string(MODES[mode]) + "chacha").c_str() : "C07.huge", tier(mode ? 10000 : 20000, 500000), [&](rng& r, u64 i)
    {
        hist pre; if (mode == 2) pre = history(r, 64, u128(1) << 66);
        auto h = history(r, 64, u128(1) << (r.chance(2) ? 40 : 66)); auto k = r.vec(32), iv = r.vec(16); uint32_t ctr; if (r.chance(3)) { ctr = uint32_t(0) - uint32_t(r.below(100)); memcpy(&iv[0], &ctr, 4); } memcpy(&ctr, &iv[0], 4); auto list = show(h); current("k=%s iv=%s %s", hex(k).c_str(), hex(iv).c_str(), list.c_str());
        std::vector<bytes> want; std::vector<uint32_t> at; texts(h, k.data(), ctr, &iv[4], want, at); bool dec = r.chance(2); bool ok = true; restore();
        guarded([&] { using O = mp::cipher::apie<C>; O o(k, iv); auto junk = [&](O& x) { u8 b[200]; x.encrypt(b, r.below(200), b); }; if (mode == 2) { for (auto& c : pre.calls) { auto p = const_cast<u8*>(c.p); o.encrypt(p, c.n, p); } o.initialize(k, iv); fresh(); } for (size_t j = 0; j < h.calls.size(); j++) { auto& c = h.calls[j]; auto p = const_cast<u8*>(c.p); if (mode == 1) moved(r, o, junk); want_ctr = at[j]; restore(); if (dec) o.decrypt(p, c.n, p); else o.encrypt(p, c.n, p); if (want[j].size() && memcmp(p, want[j].data(), want[j].size())) ok = false; } if (!ok) fail("text around huge pieces differs"); if (bad_ctr) fail("a huge piece starts at another counter"); counted(h.virt, "chacha20"); eval(sigs({u64(h.total), ctr, sig_of(k.data(), 32)}), h.virt > 0); note(h.total); if (i < 2) sample("chacha20 " + list); });
        restore();
    });
    for (int dec = 0; dec < 2; dec++) for (int mode = 0; mode < 3; mode++) cases(mode ? (std::string(MODES[mode]) + (dec ? "open" : "seal")).c_str() : dec ? "C09.huge" : "C08.huge", tier(mode ? 6000 : 20000, 500000), [&](rng& r, u64 i)
    {
        hist prea, pret; if (mode == 2) { prea = history(r, 16, u128(1) << 64); pret = history(r, 64, (u128(1) << 38) - 64); }
        auto k = r.vec(32), n = r.vec(12); auto a = history(r, 16, u128(1) << 64); const u128 MAXT = (u128(1) << 38) - 64; auto h = history(r, 64, MAXT); bool at_once = !mode && a.calls.size() == 1 && h.calls.size() == 1; auto la = show(a), lt = show(h); current("k=%s n=%s aad: %s text: %s", hex(k).c_str(), hex(n).c_str(), la.c_str(), lt.c_str());
        std::vector<bytes> want; std::vector<uint32_t> at; texts(h, k.data(), 1, n.data(), want, at); restore();
        u8 b[64], z[16]{}, l[16], tag[16], d[16]; ref::chacha_block(k.data(), 0, n.data(), b); ref::poly p(b); for (auto& c : a.ref) if (c.p != ref::VIRT) p.update(c.p, c.n); p.update(z, size_t(16 - a.total % 16) % 16);
        for (size_t j = 0; j < h.calls.size(); j++) { if (dec) p.update(save + (h.calls[j].p - (VB - 4096)), want[j].size()); else p.update(want[j].data(), want[j].size()); } p.update(z, size_t(16 - h.total % 16) % 16);
        for (int j = 0; j < 8; j++) { l[j] = u8(u64(a.total) >> (8 * j)); l[8 + j] = u8(u64(h.total) >> (8 * j)); } p.update(l, 16); p.final(tag); u128 seen = a.virt + h.virt + h.virt * 4; bool forged = dec && r.chance(3); u8 given[16]; memcpy(given, tag, 16); if (forged) given[r.below(16)] ^= u8(1u << r.below(8));
        guarded([&]
        {
            bool ok = true; milo::error e; bool good = true; auto& c0 = h.calls.empty() ? a.calls[0] : h.calls[0]; auto q = const_cast<u8*>(c0.p);
            if (at_once) { want_ctr = at[0]; if (dec) mp::aead::decrypt<E>(k.data(), 32, n.data(), 12, a.calls[0].p, a.calls[0].n, q, c0.n, given, 16, q, e); else mp::aead::encrypt<E>(k.data(), 32, n.data(), 12, a.calls[0].p, a.calls[0].n, q, c0.n, q, d); if (!forged && want[0].size() && memcmp(q, want[0].data(), want[0].size())) ok = false; good = !e; }
            else { using O = mp::aead::apie<E>; O o(k, n); bool intext = false; auto junk = [&](O& x) { if (intext) { u8 b[200]; x.encrypt(b, r.below(200), b); } else x.aad(VB - 300, r.below(200)); };
                if (mode == 2) { for (auto& c : prea.calls) o.aad(c.p, c.n); if (!r.chance(3)) for (auto& c : pret.calls) { auto t = const_cast<u8*>(c.p); o.encrypt(t, c.n, t); } if (r.chance(2)) o.digest(d); o.initialize(k, n); fresh(); restore(); }
                for (auto& c : a.calls) { o.aad(c.p, c.n); if (mode == 1) moved(r, o, junk); } intext = true;
                for (size_t j = 0; j < h.calls.size(); j++) { auto& c = h.calls[j]; auto t = const_cast<u8*>(c.p); if (mode == 1 && j) moved(r, o, junk); want_ctr = at[j]; restore(); if (dec) o.decrypt(t, c.n, t); else o.encrypt(t, c.n, t); if (want[j].size() && memcmp(t, want[j].data(), want[j].size())) ok = false; } if (dec) { o.verify(given, 16, e); good = !e; } else o.digest(d); }
            if (!ok) fail("text around huge pieces differs"); if (bad_ctr) fail("a huge piece starts at another counter"); if (dec) { if (good == forged) fail(forged ? "a forged tag is accepted for a huge message" : "an authentic huge message is refused"); } else check_eq(d, 16, tag, 16, "tag of a huge message");
            if (!forged) counted(seen, "aead"); eval(sig_of(tag, 16), virt > 0); note(a.total + h.total); if (i < 2) sample("aead aad: " + la + "text: " + lt);
        });
        restore();
    });
}
static void* work(void*)
{
    { rng r(77); r.fill(VB - 4096, 4096); }
    #if PART == 0
    hashes<ref::SHA1, uint32_t, mp::hash::sha_1_160>();
    #elif PART == 1
    hashes<ref::SHA224, uint32_t, mp::hash::sha_2_224>();
    #elif PART == 2
    hashes<ref::SHA256, uint32_t, mp::hash::sha_2_256>();
    #elif PART == 3
    hashes<ref::SHA384, uint64_t, mp::hash::sha_2_384>();
    #elif PART == 4
    hashes<ref::SHA512, uint64_t, mp::hash::sha_2_512>();
    #elif PART == 5
    hashes<ref::SHA512_224, uint64_t, mp::hash::sha_2_512_224>();
    #elif PART == 6
    hashes<ref::SHA512_256, uint64_t, mp::hash::sha_2_512_256>();
    #else
    others();
    #endif
    return nullptr;
}
int main()
{
    init(); mallopt(M_ARENA_MAX, 1);
    // Everything the library can be handed lies below VB: the stack of the thread that works, then the page, then nothing.
    const size_t STACK = 64 << 20, PAGES = 16384; auto m = static_cast<u8*>(mmap(nullptr, STACK + PAGES + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (m == MAP_FAILED) return 2;
    VB = m + STACK + PAGES; if (mprotect(VB, 65536, PROT_NONE)) return 2;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, m, STACK); pthread_t t; if (pthread_create(&t, &at, work, nullptr)) return 2; pthread_join(t, nullptr);
    count("cases_not_followed", skipped); return finish();
}
