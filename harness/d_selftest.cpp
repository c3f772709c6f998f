// Prints outputs of the reference implementations, to be compared with python's hashlib, hmac and integers.
#include "vh.h"
using namespace vh;
static void put(const char* k, const bytes& v) { printf("%s %s\n", k, hex(v, 1 << 20).c_str()); }
int main()
{
    rng r(42);
    for (int a = 0; a < 7; a++)
        for (size_t n : {0, 1, 3, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200, 1000})
        {
            auto m = r.vec(n); auto k = r.vec(n % 150); auto s = r.vec(n % 40);
            put(strf("hash %d %s", a, hex(m, 1 << 20).c_str()).c_str(), ref::hash(ref::alg(a), m.data(), m.size()));
            put(strf("hmac %d %s %s", a, hex(k, 1 << 20).c_str(), hex(m, 1 << 20).c_str()).c_str(), ref::hmac(ref::alg(a), k.data(), k.size(), m.data(), m.size()));
            put(strf("hkdf %d %s %s %s", a, hex(k, 1 << 20).c_str(), hex(s, 1 << 20).c_str(), hex(m, 1 << 20).c_str()).c_str(), ref::hkdf(ref::alg(a), k.data(), k.size(), s.data(), s.size(), m.data(), m.size(), 10 + n));
            put(strf("pbkdf %d %s %s %zu", a, hex(k, 1 << 20).c_str(), hex(s, 1 << 20).c_str(), n % 5 + 1).c_str(), ref::pbkdf2(ref::alg(a), k.data(), k.size(), s.data(), s.size(), uint32_t(n % 5 + 1), 10 + n));
        }
    for (int i = 0; i < 40; i++)
    {
        bytes k(32), iv(12), o; r.fill(k.data(), 32); r.fill(iv.data(), 12); auto m = r.vec(r.below(200)); auto a = r.vec(r.below(50)); o.resize(m.size());
        uint32_t c = i < 8 ? 0xfffffffeu + uint32_t(i) : uint32_t(r.next()); ref::chacha_xor(k.data(), c, iv.data(), m.data(), m.size(), o.data());
        put(strf("chacha %s %u %s %s", hex(k).c_str(), c, hex(iv).c_str(), hex(m, 4096).c_str()).c_str(), o);
        if (i & 1) memset(k.data(), 255, 16); if (i % 3 == 0) { m.assign(m.size(), 255); }
        put(strf("poly %s %s", hex(k).c_str(), hex(m, 4096).c_str()).c_str(), ref::poly1305(k.data(), m.data(), m.size()));
        auto s = ref::aead_seal(k.data(), iv.data(), a.data(), a.size(), m.data(), m.size());
        put(strf("aead %s %s %s %s", hex(k).c_str(), hex(iv).c_str(), hex(a).c_str(), hex(m, 4096).c_str()).c_str(), [&] { auto x = s.ct; x.insert(x.end(), s.tag.begin(), s.tag.end()); return x; }());
    }
    for (int i = 0; i < 60; i++)
    {
        auto m = r.vec(size_t(i)); auto e = ref::b16e(m.data(), m.size()), f = ref::b64e(m.data(), m.size()); bytes d, g; bool c;
        put(("b16 " + e).c_str(), m); put(("b64 " + f).c_str(), m);
        if (!ref::b16d(reinterpret_cast<const u8*>(e.data()), e.size(), d) || d != m) puts("bad b16d");
        if (!ref::b64d(reinterpret_cast<const u8*>(f.data()), f.size(), g, c) || g != m || !c) puts("bad b64d");
    }
}
