// Included before the application: its primitives are replaced by ones that tell what they were asked and what they answered.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <milo/meta.h>
#include <milo/primitive/detail/alias.h>
namespace vhprobe
{
    inline FILE* file() { static FILE* f = getenv("PROBE_LOG") ? fopen(getenv("PROBE_LOG"), "w") : nullptr; return f; }
    inline std::string last; inline unsigned long repeats = 0;
    inline void flush() { if (file() && repeats) fprintf(file(), "%lu %s\n", repeats, last.c_str()); repeats = 0; if (file()) fflush(file()); }
    inline void say(const std::string& s) { if (s != last) { flush(); last = s; } repeats++; }
    template<class P> inline std::string hex(const P* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char) p[i]; s += d[c >> 4]; s += d[c & 15]; } return s.empty() ? "-" : s; }
    struct finish { ~finish() { flush(); } }; inline finish at_end;
    template<class T> struct hash : T
    {
        std::string m;
        constexpr void initialize() noexcept(true) { m.clear(); T::initialize(); }
        template<class P> constexpr void update(const P* p, size_t n) noexcept(true) { m.append((const char*) p, n); T::update(p, n); }
        template<class P> constexpr size_t digest(P* o, size_t n = T::digest_size) const noexcept(true) { size_t r = T::digest(o, n); say("hash " + hex(o, r) + " " + hex(m.data(), m.size())); return r; }
    };
    template<class T> struct mac : T
    {
        std::string k, m;
        template<class P> constexpr void initialize(const P* p, size_t n) noexcept(true) { k.assign((const char*) p, n); m.clear(); T::initialize(p, n); }
        template<class P> constexpr void update(const P* p, size_t n) noexcept(true) { m.append((const char*) p, n); T::update(p, n); }
        template<class P> constexpr size_t digest(P* o, size_t n = T::digest_size) const noexcept(true) { size_t r = T::digest(o, n); say("mac " + hex(o, r) + " " + hex(k.data(), k.size()) + " " + hex(m.data(), m.size())); return r; }
    };
    template<class T> struct hkdf : T
    {
        std::string s;
        template<class P, class Q, class R> constexpr void initialize(const P* p, size_t n, const Q* q, size_t m, const R* r, size_t l) noexcept(true) { s = hex(p, n) + " " + hex(q, m) + " " + hex(r, l); T::initialize(p, n, q, m, r, l); }
        template<class P> constexpr size_t derive(P* o, size_t n) noexcept(true) { size_t r = T::derive(o, n); say("hkdf " + hex(o, n) + " " + s); return r; }
    };
    template<class T> struct pbkdf : T
    {
        std::string s;
        template<class P, class Q> constexpr void initialize(const P* p, size_t n, const Q* q, size_t m, size_t it) noexcept(true) { s = hex(p, n) + " " + hex(q, m) + " " + std::to_string(it); T::initialize(p, n, q, m, it); }
        template<class P> constexpr size_t derive(P* o, size_t n) noexcept(true) { size_t r = T::derive(o, n); say("pbkdf " + hex(o, n) + " " + s); return r; }
    };
    template<class T> struct cipher : T
    {
        std::string s;
        template<class P, class Q> constexpr void initialize(const P* p, size_t n, const Q* q, size_t m) noexcept(true) { s = hex(p, n) + " " + hex(q, m); T::initialize(p, n, q, m); }
        template<class P, class Q> constexpr size_t encrypt(const P* p, size_t n, Q* q) noexcept(true) { std::string i = hex(p, n); size_t r = T::encrypt(p, n, q); say("encrypt " + hex(q, r) + " " + s + " " + i); return r; }
        template<class P, class Q> constexpr size_t decrypt(const P* p, size_t n, Q* q) noexcept(true) { std::string i = hex(p, n); size_t r = T::decrypt(p, n, q); say("decrypt " + hex(q, r) + " " + s + " " + i); return r; }
    };
    template<class T> struct aead : T
    {
        std::string s, a, in, out, dir;
        template<class P, class Q> constexpr void initialize(const P* p, size_t n, const Q* q, size_t m) noexcept(true) { s = hex(p, n) + " " + hex(q, m); a = in = out = ""; dir = "aead"; T::initialize(p, n, q, m); }
        template<class P> constexpr void aad(const P* p, size_t n) noexcept(true) { a.append((const char*) p, n); T::aad(p, n); }
        template<class P, class Q> constexpr size_t encrypt(const P* p, size_t n, Q* q) noexcept(true) { in.append((const char*) p, n); size_t r = T::encrypt(p, n, q); out.append((const char*) q, r); dir = "seal"; return r; }
        template<class P, class Q> constexpr size_t decrypt(const P* p, size_t n, Q* q) noexcept(true) { in.append((const char*) p, n); size_t r = T::decrypt(p, n, q); out.append((const char*) q, r); dir = "open"; return r; }
        template<class P> constexpr size_t digest(P* o, size_t n = T::digest_size) const noexcept(true) { size_t r = T::digest(o, n); say(dir + " " + hex(o, r) + " " + s + " " + hex(a.data(), a.size()) + " " + hex(in.data(), in.size()) + " " + hex(out.data(), out.size())); return r; }
    };
    template<class T> struct codec : T
    {
        template<class P, class Q> static constexpr size_t encode(const P* p, size_t n, Q* q) noexcept(true) { size_t r = T::encode(p, n, q); say("encode " + hex(q, r) + " " + hex(p, n)); return r; }
        template<class P, class Q, class E> static constexpr size_t decode(const P* p, size_t n, Q* q, E& e) noexcept(true) { size_t r = T::decode(p, n, q, e); say("decode " + hex(q, r) + " " + hex(p, n)); return r; }
    };
    template<class T> auto wrap()
    {
        struct box { };
        if constexpr (milo::meta::primitive::codec<T>) return static_cast<codec<T>*>(nullptr);
        else if constexpr (milo::meta::primitive::hash<T>) return static_cast<hash<T>*>(nullptr);
        else if constexpr (milo::meta::primitive::mac<T>) return static_cast<mac<T>*>(nullptr);
        else if constexpr (milo::meta::primitive::kdf_hkdf<T>) return static_cast<hkdf<T>*>(nullptr);
        else if constexpr (milo::meta::primitive::kdf_pbkdf_2<T>) return static_cast<pbkdf<T>*>(nullptr);
        else if constexpr (milo::meta::primitive::cipher<T>) return static_cast<cipher<T>*>(nullptr);
        else return static_cast<aead<T>*>(nullptr);
    }
    template<class T> using wrapped = std::remove_pointer_t<decltype(wrap<T>())>;
}
#define VH_PROBE(n) namespace milo::primitive { using vhp_##n = vhprobe::wrapped<n>; }
#include "probe.inc"
extern "C" unsigned long vh_counters[64];
extern "C" inline __attribute__((used)) void vh_on_clock() { vhprobe::flush(); if (auto f = vhprobe::file()) { fprintf(f, "1 clock"); for (int i = 0; i < 64; i++) fprintf(f, " %lu", vh_counters[i]); fprintf(f, "\n"); } vhprobe::last.clear(); }
