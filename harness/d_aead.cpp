// C08, C09 and C02 for ChaCha20-Poly1305.
#include "prim.h"
using namespace vh;
struct in_t { bytes k, iv, aad, pt; ref::sealed s; };
static in_t make(rng& r, size_t an, size_t n) { in_t x; x.k = r.vec(32); x.iv = r.vec(12); x.aad = r.vec(an); x.pt = r.vec(n); x.s = ref::aead_seal(x.k.data(), x.iv.data(), x.aad.data(), an, x.pt.data(), n); return x; }

template<class C> void run(const char* be)
{
    if (C::key_size != 32 || C::iv_size != 12 || C::digest_size != 16) fail("sizes");
    auto g = [&](const char* n) { return std::string(n) + ".aead." + be; };
    auto seal = [&](const in_t& x, const char* what)
    {
        current("%s seal aad=%zu pt=%zu k=%s iv=%s", be, x.aad.size(), x.pt.size(), hex(x.k).c_str(), hex(x.iv).c_str());
        bytes ct(x.pt.size()), tag(16); auto [cs, ds] = mp::aead::encrypt<C>(x.k.data(), 32, x.iv.data(), 12, x.aad.data(), x.aad.size(), x.pt.data(), x.pt.size(), ct.data(), tag.data());
        if (cs != x.pt.size() || ds != 16) fail(strf("%s: sizes %zu %zu", what, size_t(cs), size_t(ds)));
        check_eq(ct, x.s.ct, what); check_eq(tag, x.s.tag, "tag"); eval(sigs({x.aad.size(), x.pt.size(), sig_of(tag.data(), 16)}));
    };
    // all pairs of lengths modulo 16 over a few blocks
    cases(g("C08.len").c_str(), 50, [&](rng& r, u64 an) { for (size_t n = 0; n < 50; n++) for (unsigned i = 0; i < tier(1, 6); i++) seal(make(r, an, n), "ciphertext"); });
    cases(g("C08.rand").c_str(), tier(3000, 100000), [&](rng& r, u64 i) { auto x = make(r, r.chance(4) ? 0 : r.len(600), r.chance(6) ? 0 : r.len(i % 16 ? 2500 : 70000)); seal(x, "ciphertext"); if (i < 2) sample(strf("aead %s aad=%zu pt=%zu tag=%s", be, x.aad.size(), x.pt.size(), hex(x.s.tag).c_str())); });
    auto stream = [&](rng& r, const in_t& x, bool enc, u64& sg, u64& np)
    {
        mp::aead::apie<C> h(x.k.data(), 32, x.iv.data(), 12); size_t p = 0; auto ap = split(r, x.aad.size()), tp = split(r, x.pt.size()); sg = 1; for (auto c : ap) sg = mix(sg ^ c); sg = mix(sg ^ 77); for (auto c : tp) sg = mix(sg ^ c); np = ap.size() + tp.size();
        current("%s stream %s aad=%zu in %zu pt=%zu in %zu", be, enc ? "encrypt" : "decrypt", x.aad.size(), ap.size(), x.pt.size(), tp.size());
        if (x.aad.empty() && r.chance(2)) ap.clear();
        if (x.pt.empty() && r.chance(2)) tp.clear();
        for (auto c : ap) { h.aad(x.aad.data() + p, c); p += c; }
        p = 0; bytes o(x.pt.size());
        if (enc) { for (auto c : tp) { h.encrypt(x.pt.data() + p, c, o.data() + p); p += c; } u8 d[16]; auto n = h.digest(d, 16); check_eq(o, x.s.ct, "ciphertext in pieces"); check_eq(d, n, x.s.tag.data(), 16, "tag in pieces"); if (r.chance(2)) { u8 e[16]; h.digest(e, 16); check_eq(e, 16, x.s.tag.data(), 16, "tag again"); } }
        else
        {
            for (auto c : tp) { h.decrypt(x.s.ct.data() + p, c, o.data() + p); p += c; } check_eq(o, x.pt, "plaintext in pieces");
            milo::error e(milo::error::size); h.verify(x.s.tag.data(), 16, e); if (e) fail("authentic message in pieces rejected");
        }
    };
    // the type below the wrapper, used as documented: aad, message, finalize, digest
    cases(g("C08.raw").c_str(), tier(2000, 40000), [&](rng& r, u64)
    {
        auto x = make(r, r.chance(4) ? 0 : r.len(100), r.chance(4) ? 0 : r.len(500)); current("%s raw aad=%zu pt=%zu", be, x.aad.size(), x.pt.size()); C c; c.initialize(x.k.data(), 32, x.iv.data(), 12); size_t p = 0;
        for (auto n : split(r, x.aad.size())) { c.aad(x.aad.data() + p, n); p += n; }
        if (r.chance(4)) c.aadover();
        p = 0; bytes o(x.pt.size()); for (auto n : split(r, x.pt.size())) { c.encrypt(x.pt.data() + p, n, o.data() + p); p += n; }
        c.finalize(); u8 d[16]; auto n = c.digest(d); check_eq(o, x.s.ct, "raw ciphertext"); check_eq(d, n, x.s.tag.data(), 16, "raw tag"); eval(sigs({x.aad.size(), x.pt.size(), sig_of(d, 16)}));
    });
    cases(g("C08.apie").c_str(), tier(2500, 60000), [&](rng& r, u64) { u64 s, n; auto x = make(r, r.chance(4) ? 0 : r.len(200), r.chance(4) ? 0 : r.len(700)); stream(r, x, true, s, n); eval(sigs({s, x.aad.size(), x.pt.size()})); });
    cases(g("C02.many").c_str(), tier(5000, 100000), [&](rng& r, u64 i) { u64 s, n; auto x = make(r, r.chance(5) ? 0 : r.len(300), r.chance(5) ? 0 : r.len(2000)); stream(r, x, i & 1, s, n); eval(sigs({s, i & 1}), n > 2); count("pieces", n); });
    for (int part = 0; part < 2; part++) cases(g(part ? "C02.large" : "C08.large").c_str(), tier(11, 14), [&](rng& r, u64 i)
    {
        size_t big = (size_t(64) << (7 + i)) + r.below(300); auto x = make(r, i % 3 == 0 ? big : r.below(60), i % 3 == 0 ? r.below(300) : big); auto cut = [&](size_t n) { return part ? r.chance(2) ? r.below(n + 1) : r.below(std::min<size_t>(n, 100) + 1) : n; };
        size_t a = cut(x.aad.size()), t = cut(x.pt.size()), an = x.aad.size(), n = x.pt.size(); current("%s aad=%zu/%zu pt=%zu/%zu", be, a, an, t, n); bool enc = r.chance(2); const bytes &src = enc ? x.pt : x.s.ct, &dst = enc ? x.s.ct : x.pt;
        mp::aead::apie<C> h(x.k, x.iv); h.aad(x.aad.data(), a); h.aad(x.aad.data() + a, an - a); bytes o(n); auto f = [&](size_t p, size_t s) { if (enc) h.encrypt(src.data() + p, s, o.data() + p); else h.decrypt(src.data() + p, s, o.data() + p); beat(); }; f(0, t); f(t, n - t);
        u8 d[16]; auto c = h.digest(d, 16); check_eq(o, dst, part ? "large text in pieces" : "large text"); check_eq(d, c, x.s.tag.data(), 16, "tag of a large message"); eval(sigs({an, n, a, t, enc}), true);
    });
    cases(g("C02.two").c_str(), 70, [&](rng& r, u64 n)
    {
        auto x = make(r, n, n * 9);
        for (size_t s = 0; s <= n; s++)
        {
            size_t t = s * 9; current("%s aad=%zu/%zu pt=%zu/%zu", be, s, size_t(n), t, size_t(n * 9)); mp::aead::apie<C> h(x.k, x.iv); h.aad(x.aad.data(), s); h.aad(x.aad.data() + s, n - s); bytes o(n * 9); h.encrypt(x.pt.data(), t, o.data()); h.encrypt(x.pt.data() + t, n * 9 - t, o.data() + t);
            u8 d[16]; auto c = h.digest(d, 16); check_eq(o, x.s.ct, "two way split"); check_eq(d, c, x.s.tag.data(), 16, "tag of two way split"); eval(sigs({n, s}));
        }
    });

    // C09. Every way of opening a message, told whether it is authentic.
    auto open = [&](unsigned way, const bytes& k, const bytes& iv, const bytes& aad, const bytes& ct, const bytes& tag, bytes& out) -> bool
    {
        milo::error e(way & 16 ? milo::error::size : milo::error::none); out.assign(ct.size(), 0xa5);
        switch (way & 15)
        {
            case 0: { auto n = mp::aead::decrypt<C>(k.data(), k.size(), iv.data(), iv.size(), aad.data(), aad.size(), ct.data(), ct.size(), tag.data(), tag.size(), out.data(), e); if (n != ct.size()) fail("size"); return !e; }
            case 1: try { auto n = mp::aead::decrypt<C>(k.data(), k.size(), iv.data(), iv.size(), aad.data(), aad.size(), ct.data(), ct.size(), tag.data(), tag.size(), out.data()); if (n != ct.size()) fail("size"); return true; } catch (const milo::error& x) { if (!(x == milo::error::aead_verify)) fail("another error code"); return false; }
            case 2: { bytes o; auto n = mp::aead::decrypt<C>(k, iv, aad, ct, tag, o, e); if (n != ct.size()) fail("size"); out = o; return !e; }
            case 3: try { bytes o; mp::aead::decrypt<C>(k, iv, aad, ct, tag, o); out = o; return true; } catch (const milo::error&) { return false; }
            case 4: { out = mp::aead::decrypt<C, bytes>(k, iv, aad, ct, tag, e); return !e; }
            case 5: try { out = mp::aead::decrypt<C, bytes>(k, iv, aad, ct, tag); return true; } catch (const milo::error&) { return false; }
            case 6: { mp::aead::apie<C> h(k, iv); h.aad(aad); h.decrypt(ct.data(), ct.size(), out.data()); h.verify(tag, e); return !e; }
            case 7: { mp::aead::apie<C> h(k, iv); h.aad(aad); h.decrypt(ct.data(), ct.size(), out.data()); try { h.verify(tag); return true; } catch (const milo::error&) { return false; } }
            default:
            {
                // a wrong tag first, the one in question after it
                mp::aead::apie<C> h(k, iv); h.aad(aad); h.decrypt(ct.data(), ct.size(), out.data()); bytes w(16, 0x5a); h.verify(w.data(), w.size(), e); if (!e) fail("wrong tag accepted"); h.verify(tag.data(), tag.size(), e); return !e;
            }
        }
    };
    unsigned way = 0;
    auto expect = [&](bool good, const in_t& x, const bytes& k, const bytes& iv, const bytes& aad, const bytes& ct, const bytes& tag, const char* what)
    {
        unsigned w = way % 9 + (way / 9 % 2 ? 16 : 0); way += 1; bytes out; current("%s way=%u %s k=%s iv=%s aad=%s ct=%s tag=%s", be, w, what, hex(k).c_str(), hex(iv).c_str(), hex(aad, 32).c_str(), hex(ct, 32).c_str(), hex(tag).c_str());
        bool got = false; try { got = open(w, k, iv, aad, ct, tag, out); } catch (...) { fail(strf("%s: another exception", what)); }
        if (got != good) fail(strf("%s: %s (way %u)", what, got ? "forgery accepted" : "authentic message rejected", w));
        if (good && got) check_eq(out, x.pt, "plaintext of authentic message");
        eval(sigs({w, good, sig_of(tag.data(), tag.size()), sig_of(ct.data(), ct.size(), 5), sig_of(aad.data(), aad.size(), 9), sig_of(k.data(), k.size(), 3), sig_of(iv.data(), iv.size(), 2)}), true); count(good ? "authentic_opened" : "forgeries_tried");
    };
    cases(g("C09.good").c_str(), tier(3000, 60000), [&](rng& r, u64) { auto x = make(r, r.chance(3) ? 0 : r.len(300), r.chance(5) ? 0 : r.len(1500)); expect(true, x, x.k, x.iv, x.aad, x.s.ct, x.s.tag, "authentic"); });
    cases(g("C09.bits").c_str(), tier(40, 300), [&](rng& r, u64 i)
    {
        auto x = make(r, r.below(i % 4 ? 24 : 3), r.below(i % 5 ? 24 : 70)); if (i == 0) x = make(r, 0, 0);
        auto flip = [](bytes b, size_t n) { b[n / 8] ^= u8(1 << n % 8); return b; };
        for (size_t b = 0; b < 128; b++) expect(false, x, x.k, x.iv, x.aad, x.s.ct, flip(x.s.tag, b), "tag bit");
        for (size_t b = 0; b < x.s.ct.size() * 8; b++) expect(false, x, x.k, x.iv, x.aad, flip(x.s.ct, b), x.s.tag, "ciphertext bit");
        for (size_t b = 0; b < x.aad.size() * 8; b++) expect(false, x, x.k, x.iv, flip(x.aad, b), x.s.ct, x.s.tag, "aad bit");
        for (size_t b = 0; b < 256; b++) expect(false, x, flip(x.k, b), x.iv, x.aad, x.s.ct, x.s.tag, "key bit");
        for (size_t b = 0; b < 96; b++) expect(false, x, x.k, flip(x.iv, b), x.aad, x.s.ct, x.s.tag, "iv bit");
        for (size_t b = 0; b < 128; b++) { auto t = x.s.tag; t[b / 8] ^= u8(1 << b % 8); t[r.below(16)] ^= u8(1 << b % 8); if (t != x.s.tag) expect(false, x, x.k, x.iv, x.aad, x.s.ct, t, "two tag bits"); }
    });
    cases(g("C09.sizes").c_str(), tier(200, 2000), [&](rng& r, u64)
    {
        auto x = make(r, r.below(40), r.below(100));
        for (size_t n = 0; n < 16; n++) { bytes t(x.s.tag.begin(), x.s.tag.begin() + long(n)); expect(false, x, x.k, x.iv, x.aad, x.s.ct, t, "truncated tag"); }
        for (size_t n : {1, 2, 15, 16, 17, 48}) { auto t = x.s.tag; for (size_t j = 0; j < n; j++) t.push_back(r.chance(2) ? 0 : x.s.tag[j % 16]); expect(false, x, x.k, x.iv, x.aad, x.s.ct, t, "extended tag"); }
        for (size_t n : {1, 2, 15, 16}) { if (x.s.ct.size() >= n) { bytes c(x.s.ct.begin(), x.s.ct.end() - long(n)); expect(false, x, x.k, x.iv, x.aad, c, x.s.tag, "truncated ciphertext"); } auto c = x.s.ct; c.insert(c.end(), n, 0); expect(false, x, x.k, x.iv, x.aad, c, x.s.tag, "extended ciphertext"); }
        for (size_t n : {1, 2, 15, 16}) { if (x.aad.size() >= n) { bytes c(x.aad.begin(), x.aad.end() - long(n)); expect(false, x, x.k, x.iv, c, x.s.ct, x.s.tag, "truncated aad"); } auto c = x.aad; c.insert(c.end(), n, 0); expect(false, x, x.k, x.iv, c, x.s.ct, x.s.tag, "extended aad"); }
        // the border between additional data and ciphertext moved
        if (!x.s.ct.empty()) { auto a = x.aad; a.push_back(x.s.ct[0]); bytes c(x.s.ct.begin() + 1, x.s.ct.end()); expect(false, x, x.k, x.iv, a, c, x.s.tag, "moved border"); }
        if (!x.aad.empty()) { auto c = x.s.ct; c.insert(c.begin(), x.aad.back()); bytes a(x.aad.begin(), x.aad.end() - 1); expect(false, x, x.k, x.iv, a, c, x.s.tag, "moved border"); }
        bytes z(16, 0); expect(false, x, x.k, x.iv, x.aad, x.s.ct, z, "zero tag"); auto o = make(r, r.below(40), x.pt.size()); expect(false, x, x.k, x.iv, x.aad, x.s.ct, o.s.tag, "tag of another message"); expect(false, x, x.k, x.iv, x.aad, o.s.ct, o.s.tag, "another message");
        if (r.chance(8)) sample(strf("aead %s forgeries of aad=%zu ct=%zu", be, x.aad.size(), x.s.ct.size()));
    });
    cases(g("C09.long").c_str(), tier(60, 1000), [&](rng& r, u64)
    {
        // single changed bits far into long messages, and big additional data
        auto x = make(r, r.len(5000), 1 + r.len(20000)); auto c = x.s.ct; size_t b = r.below(c.size() * 8); c[b / 8] ^= u8(1 << b % 8); expect(false, x, x.k, x.iv, x.aad, c, x.s.tag, "bit of a long ciphertext");
        if (!x.aad.empty()) { auto a = x.aad; b = r.below(a.size() * 8); a[b / 8] ^= u8(1 << b % 8); expect(false, x, x.k, x.iv, a, x.s.ct, x.s.tag, "bit of long aad"); } expect(true, x, x.k, x.iv, x.aad, x.s.ct, x.s.tag, "authentic long");
    });
}

// Text and additional data longer than 2^32 bytes, in one call each.
static void big()
{
    using C = mp::aead::chacha_20_poly_1305<>;
    cases("C08.big.text", 1, [&](rng& r, u64)
    {
        const size_t n = (size_t(1) << 32) + 65536 * 3 + 77; auto k = r.vec(32), iv = r.vec(12), aad = r.vec(21);
        auto a = static_cast<u8*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (a == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(2); }
        for (size_t i = 0; i < n; i += 4096) { u64 v = mix(i); memcpy(a + i, &v, std::min<size_t>(8, n - i)); }
        // the reference first, then in place
        u8 otk[64], tag[16]; current("text of %zu bytes", n); ref::chacha_block(k.data(), 0, iv.data(), otk); ref::poly ps(otk);
        auto pad = [&](size_t s) { u8 z[16]{}; ps.update(z, (16 - s % 16) % 16); };
        ps.update(aad.data(), aad.size()); pad(aad.size()); u64 h1 = 5, h2 = 5; const size_t step = 1 << 20; std::vector<u8> buf(step);
        for (size_t p = 0; p < n; p += step) { size_t c = std::min(step, n - p); ref::chacha_xor(k.data(), uint32_t(1 + p / 64), iv.data(), a + p, c, buf.data()); ps.update(buf.data(), c); for (size_t i = 0; i + 8 <= c; i += 8) { u64 v; memcpy(&v, &buf[i], 8); h1 = (h1 ^ v) * 0x9e3779b97f4a7c15ull; h1 ^= h1 >> 29; } h1 = sig_of(buf.data() + c / 8 * 8, c % 8, h1); }
        pad(n); u8 l[16]; u64 x = aad.size(), y = n; memcpy(l, &x, 8); memcpy(l + 8, &y, 8); ps.update(l, 16); ps.final(tag);
        u8 d[16]; auto [cs, ds] = mp::aead::encrypt<C>(k.data(), 32, iv.data(), 12, aad.data(), aad.size(), a, n, a, d); if (cs != n || ds != 16) fail("sizes of a long message");
        for (size_t p = 0; p < n; p += step) { size_t c = std::min(step, n - p); for (size_t i = 0; i + 8 <= c; i += 8) { u64 v; memcpy(&v, a + p + i, 8); h2 = (h2 ^ v) * 0x9e3779b97f4a7c15ull; h2 ^= h2 >> 29; } h2 = sig_of(a + p + c / 8 * 8, c % 8, h2); }
        if (h1 != h2) fail("ciphertext of a long message differs"); check_eq(d, 16, tag, 16, "tag of a long message"); eval(n); count("bytes_in_long_messages", n); sample(strf("aead text of %zu bytes tag=%s", n, hex(d, 16).c_str())); munmap(a, n);
    });
    cases("C08.big.aad", 1, [&](rng& r, u64)
    {
        const size_t unit = 1 << 20; const u64 n = (u64(1) << 32) + 5 * unit - 3, span = (n + unit - 1) / unit * unit; auto k = r.vec(32), iv = r.vec(12), pt = r.vec(100); auto u = r.vec(unit);
        int fd = memfd_create("big", 0); if (fd < 0 || write(fd, u.data(), unit) != ssize_t(unit)) { fprintf(stderr, "memfd\n"); exit(2); }
        auto base = static_cast<u8*>(mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (base == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(2); }
        for (u64 o = 0; o < span; o += unit) if (mmap(base + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "mmap fixed\n"); exit(2); }
        current("additional data of %llu bytes", (unsigned long long)n); u8 otk[64], tag[16], ct[100]; ref::chacha_block(k.data(), 0, iv.data(), otk); ref::poly ps(otk); u8 z[16]{};
        ps.update(base, n); ps.update(z, (16 - n % 16) % 16); ref::chacha_xor(k.data(), 1, iv.data(), pt.data(), 100, ct); ps.update(ct, 100); ps.update(z, 12); u8 l[16]; u64 x = n, y = 100; memcpy(l, &x, 8); memcpy(l + 8, &y, 8); ps.update(l, 16); ps.final(tag);
        u8 d[16], o[100]; mp::aead::encrypt<C>(k.data(), 32, iv.data(), 12, base, n, pt.data(), 100, o, d); check_eq(o, 100, ct, 100, "text after long additional data"); check_eq(d, 16, tag, 16, "tag of long additional data"); eval(n); count("bytes_in_long_messages", n); munmap(base, span);
    });
}
int main() { init(); if (getenv("AEAD_BIG")) { itimerval it{}; setitimer(ITIMER_VIRTUAL, &it, nullptr); big(); return finish(); } prim::aead_backends([&](const char* n, auto t) { run<typename decltype(t)::type>(n); }); return finish(); }
