// C10 and C11: base-16 and base-64.
#include "prim.h"
using namespace vh;

static const u8* U(const std::string& s) { return reinterpret_cast<const u8*>(s.data()); }

template<bool B64> struct spec
{
    static std::string enc(const bytes& b) { if constexpr (B64) return ref::b64e(b.data(), b.size()); else return ref::b16e(b.data(), b.size()); }
    // valid text, its bytes; judged: whether acceptance is specified for this text at all
    static bool dec(const std::string& t, bytes& o, bool& judged) { judged = true; if constexpr (B64) { bool canon = true; bool ok = ref::b64d(U(t), t.size(), o, canon); if (ok && !canon) judged = false; return ok; } else return ref::b16d(U(t), t.size(), o); }
    static size_t max_dec(size_t n) { return B64 ? n / 4 * 3 + 3 : n / 2 + 1; }
};

template<bool B64, class C> void run(const char* name, const char* pid)
{
    using X = spec<B64>; using A = mp::codec::apie<C>; auto g = [&](const char* n) { return std::string(pid) + "." + n + "." + name; };
    const auto enc_err = B64 ? milo::error::codec_base_64_decode : milo::error::codec_base_16_decode;
    unsigned way = 0;
    auto encode = [&](rng& r, const bytes& m, const char* what)
    {
        current("encode %s", hex(m).c_str()); auto want = X::enc(m); std::string got;
        size_t es = A::encode_size(m.data(), m.size()); if (es != want.size()) fail(strf("encode_size %zu for %zu bytes, want %zu", es, m.size(), want.size()));
        switch (way++ % 5)
        {
            case 0: { canary c(r, want.size(), r.next()); auto n = mp::codec::encode<C>(m.data(), m.size(), c.p()); got.assign(reinterpret_cast<char*>(c.p()), std::min(n, want.size())); if (n != want.size()) fail("encoded size"); if (!c.ok(want.size())) fail("wrote outside the output"); break; }
            case 1: { std::string o = "stale"; auto n = mp::codec::encode<C>(m, o); if (n != o.size()) fail("returned size"); got = o; break; }
            case 2: { got = mp::codec::encode<C, std::string>(m); break; }
            case 3: { std::vector<signed char> o(3); A::encode(m, o); got.assign(reinterpret_cast<const char*>(o.data()), o.size()); break; }
            default: { std::vector<char> in(m.begin(), m.end()); auto o = A::template encode<std::vector<u8>>(in); got.assign(o.begin(), o.end()); }
        }
        check_eq(got.data(), got.size(), want.data(), want.size(), what);
        bytes back; back.resize(C::decode_size(want.data(), want.size())); milo::error e(milo::error::size); auto n = C::decode(want.data(), want.size(), back.data(), e); back.resize(std::min(n, back.size())); if (e) fail("own text rejected"); check_eq(back, m, "round trip");
        eval(sigs({m.size(), sig_of(m.data(), m.size())}));
    };
    auto decode = [&](rng& r, const std::string& t, const char* what)
    {
        bytes want; bool judged; bool ok = X::dec(t, want, judged); current("%s decode size=%zu text=%s", what, t.size(), hex(t.data(), t.size(), 256).c_str());
        if (ok) { size_t ds = A::decode_size(t.data(), t.size()); if (ds != want.size() && judged) fail(strf("decode_size %zu for text of %zu, want %zu", ds, t.size(), want.size())); }
        bytes got; bool acc = false, thrown = false; unsigned w = way++ % 7; milo::error e(r.chance(2) ? milo::error::size : milo::error::none); milo::error code(milo::error::none);
        try
        {
            switch (w)
            {
                case 0: { size_t ds = C::decode_size(t.data(), t.size()); canary c(r, ds, r.next()); auto n = C::decode(t.data(), t.size(), c.p(), e); acc = !e; code = e; if (n > ds) { fail("returned more than decode_size"); n = ds; } got.assign(c.p(), c.p() + n); if (!c.ok(ds)) fail("wrote outside the output"); break; }
                case 1: { size_t ds = A::decode_size(t); bytes o(ds); auto n = mp::codec::decode<C>(t.data(), t.size(), o.data()); acc = true; o.resize(std::min(n, ds)); got = o; break; }
                case 2: { bytes o(5, 7); auto n = mp::codec::decode<C>(t, o, e); acc = !e; code = e; if (n != o.size()) fail("returned size"); got = o; break; }
                case 3: { bytes o; mp::codec::decode<C>(t, o); acc = true; got = o; break; }
                case 4: { got = mp::codec::decode<C, bytes>(t); acc = true; break; }
                case 5: { std::vector<signed char> in(t.begin(), t.end()); std::string o; A::decode(in, o, e); acc = !e; code = e; got.assign(o.begin(), o.end()); break; }
                default: { std::vector<u8> in(t.begin(), t.end()); auto o = A::template decode<std::vector<char>>(in); acc = true; got.assign(o.begin(), o.end()); }
            }
        }
        catch (const milo::error& x) { thrown = true; code = x; if (w == 0 || w == 2 || w == 5) fail("threw although an error object was passed"); }
        catch (...) { fail("threw something else"); }
        (void)thrown;
        if (!acc && !(code == enc_err)) fail(strf("%s: another error code", what));
        if (acc && !ok) fail(strf("%s: invalid text accepted", what));
        if (!acc && ok && judged) fail(strf("%s: valid text rejected", what));
        if (acc && ok) check_eq(got, want, what);
        eval(sigs({w, ok, sig_of(t.data(), t.size())}), true); count(ok ? "valid_texts" : "invalid_texts");
    };
    cases(g("enc").c_str(), 300, [&](rng& r, u64 n) { for (unsigned k = 0; k < tier(10, 100); k++) encode(r, r.vec(n), "text"); });
    cases(g("encall").c_str(), 1, [&](rng& r, u64)
    {
        for (unsigned b = 0; b < 256; b++) encode(r, bytes{u8(b)}, "one byte");
        for (unsigned b = 0; b < 65536; b++) encode(r, bytes{u8(b >> 8), u8(b)}, "two bytes");
        if (B64) for (unsigned b = 0; b < (1u << 24); b += S.thorough ? 1 : 37) { u8 m[3] = {u8(b >> 16), u8(b >> 8), u8(b)}, o[4]; C::encode(m, 3, o); auto w = ref::b64e(m, 3); if (memcmp(o, w.data(), 4)) { check_eq(o, 4, w.data(), 4, "three bytes"); } u8 back[3]; milo::error e; C::decode(o, 4, back, e); if (e || memcmp(back, m, 3)) fail("three bytes round trip"); eval(b); beat(); }
    });
    cases(g("rand").c_str(), tier(3000, 60000), [&](rng& r, u64 i) { encode(r, r.vec(r.len(i % 64 ? 600 : 50000)), "text"); if (i < 2) sample(strf("%s case %llu", name, (unsigned long long)i)); });
    static const char* AL = B64 ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" : "0123456789abcdefABCDEF"; const size_t NA = strlen(AL);
    auto text = [&](rng& r, size_t n) { std::string t(n, 0); for (auto& c : t) c = AL[r.below(NA)]; return t; };
    // every byte value at every position, for all short sizes
    cases(g("byte").c_str(), 22, [&](rng& r, u64 n)
    {
        for (size_t p = 0; p < n; p++) for (unsigned b = 0; b < 256; b++)
        {
            auto t = text(r, n); if (B64 && n && n % 4 == 0 && r.chance(2)) { unsigned pad = unsigned(r.below(3)); for (unsigned k = 0; k < pad; k++) t[n - 1 - k] = '='; }
            t[p] = char(b); for (int k = 0; k < 4; k++) decode(r, t, "any byte");
        }
        decode(r, text(r, n), "alphabet");
    });
    cases(g("pairs").c_str(), B64 ? 1 : 1, [&](rng& r, u64)
    {
        // all pairs of byte values
        for (unsigned a = 0; a < 256; a++) for (unsigned b = 0; b < 256; b++)
        {
            if (!B64) decode(r, std::string{char(a), char(b)}, "two bytes");
            else { decode(r, std::string{'Q', 'U', char(a), char(b)}, "last pair"); decode(r, std::string{char(a), char(b), 'Q', 'U'}, "first pair"); decode(r, std::string{'Q', char(a), char(b), 'U', 'Q', 'Q', '=', '='}, "inner pair"); }
        }
    });
    cases(g("pad").c_str(), B64 ? 64 : 1, [&](rng& r, u64 m)
    {
        // every subset of places taken by padding in texts of up to three groups; each odd size
        if (!B64) { for (size_t n = 1; n < 400; n += 1) for (int k = 0; k < 8; k++) decode(r, text(r, n), "size"); return; }
        for (size_t n = 0; n <= 12; n++) for (unsigned s = unsigned(m); s < (1u << n); s += 64) { for (int k = 0; k < 3; k++) { auto t = text(r, n); for (size_t p = 0; p < n; p++) if (s >> p & 1) t[p] = '='; decode(r, t, "padding layout"); } }
    });
    cases(g("mutate").c_str(), tier(20000, 400000), [&](rng& r, u64)
    {
        auto t = X::enc(r.vec(r.len(300))); unsigned k = unsigned(r.below(3));
        if (!B64 && r.chance(2)) for (auto& c : t) if (r.chance(2)) c = char(toupper(c));
        for (unsigned j = 0; j < k && !t.empty(); j++)
        {
            size_t p = r.chance(3) ? (r.chance(2) ? 0 : t.size() - 1) : r.below(t.size());
            switch (r.below(6)) { case 0: t[p] = char(r.next()); break; case 1: t.erase(p, 1); break; case 2: t.insert(p, 1, AL[r.below(NA)]); break; case 3: t[p] = "=\n \r\t\0-_,."[r.below(10)]; break; case 4: t.resize(p); break; default: t += t.substr(p); }
            if (t.empty()) break;
        }
        decode(r, t, "mutated text");
    });
    // inputs longer than 2^32: a periodic input and a periodic output, both mapped again and again
    if (getenv("CODEC_BIG")) cases(g("big").c_str(), 2, [&](rng& r, u64 dir)
    {
        const size_t unit = (B64 ? 3u : 1u) << 20, tunit = (B64 ? 4u : 2u) << 20; const size_t iu = dir ? tunit : unit, ou = dir ? unit : tunit; const size_t total = ((size_t(1) << 32) / iu + 2) * iu;
        auto map = [&](size_t u, size_t n) { int fd = memfd_create("c", 0); if (fd < 0 || ftruncate(fd, off_t(u))) exit(2); auto b = static_cast<u8*>(mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (b == MAP_FAILED) exit(2); for (size_t o = 0; o < n; o += u) if (mmap(b + o, u, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(2); close(fd); return b; };
        auto in = map(iu, total); size_t on = total / iu * ou; auto out = map(ou, on); auto m = r.vec(unit); r.fill(m.data(), unit); auto t = X::enc(m); if (dir) memcpy(in, t.data(), tunit); else memcpy(in, m.data(), unit);
        current("%s of %zu bytes", dir ? "decode" : "encode", total); milo::error e(milo::error::none); size_t n = dir ? C::decode(in, total, out, e) : C::encode(in, total, out); beat();
        if (e) fail("long input rejected");
        if (n != on || (dir ? C::decode_size(in, total) : C::encode_size(in, total)) != on) fail(strf("size %zu of long output, want %zu", n, on));
        if (dir) check_eq(out, ou, m.data(), ou, "long decode"); else check_eq(out, ou, t.data(), ou, "long encode");
        eval(total + dir); count("bytes_in_long_inputs", total); munmap(in, total); munmap(out, on);
    });
}
int main()
{
    init(); if (getenv("CODEC_BIG")) { itimerval it{}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
    run<false, prim::b16>("base16", "C10"); run<true, prim::b64>("base64", "C11"); return finish();
}
