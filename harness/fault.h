// Implementations for generated test programs: the real ones, of which the environment may spoil one result.
//   VF_TAG, VF_AT   which implementation, and which of its results (those of no bytes are not counted)
//   VF_KIND         0: flip bits of byte VF_POS (modulo the size), 1: report one byte less, 2: report an error
//   VF_EMPTY        the implementation that reports an error for every decoded text of no bytes
//   VF_FORK         a copy of the process goes on from every n-th result or so with that result spoiled, and has to fail; VF_LOG tells how many did not
//   VF_LOG          file for the number of results of each implementation, and its first results
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <sys/wait.h>
#include <milo/internal.h>
#include <milo/primitive/detail/alias.h>
namespace vf
{
    inline long num(const char* n, long d) { auto p = std::getenv(n); return p ? std::atol(p) : d; }
    struct state
    {
        long tag = num("VF_TAG", -1), at = num("VF_AT", -1), kind = num("VF_KIND", 0), pos = num("VF_POS", 0), bits = num("VF_XOR", 1), empty = num("VF_EMPTY", -1), fork = num("VF_FORK", 0), next = 0, forks = 0, missed = 0, miss_at = -1, calls[8]{}, hit = 0; const char* log = std::getenv("VF_LOG"); unsigned long seed = num("VF_SEED", 1); std::string text;
        ~state() { if (!log) return; if (auto f = std::fopen(log, "w")) { for (auto c : calls) std::fprintf(f, "%ld ", c); std::fprintf(f, "%ld\n", hit); if (fork) std::fprintf(f, "%ld %ld %ld\n", forks, missed, miss_at); std::fprintf(f, "%s", text.c_str()); std::fclose(f); } }
    };
    inline state& st() { static state s; return s; }
    template<class T> inline size_t spoil(int tag, T* p, size_t n, bool* err = nullptr)
    {
        auto& s = st();
        if (!n) { if (err && s.empty == tag) { s.hit++; *err = true; } return n; }
        long k = s.calls[tag]++;
        if (s.fork && s.tag == tag && k == s.next)
        {
            s.seed = s.seed * 6364136223846793005ul + 1442695040888963407ul; long x = (s.seed >> 20) & 0xffffffff; s.next += 1 + x % (2 * s.fork); s.forks++;
            std::cerr.flush(); if (auto pid = ::fork()) { int st = 0; if (pid < 0) std::abort(); while (::waitpid(pid, &st, 0) < 0) { } if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { s.missed++; if (s.miss_at < 0) s.miss_at = k; if (s.missed >= 3) s.fork = 0x7fffffff, s.next = -1; } }
            else { ::alarm(200); s.fork = 0; s.log = nullptr; s.at = k; s.hit++; p[size_t(x) % n] ^= T(1u << (x >> 13) % 8); return n; }
            return n;
        }
        if (s.fork) return n;
        if (s.log && k < 4000) { char b[32]; std::snprintf(b, sizeof b, "%d ", tag); s.text += b; for (size_t i = 0; i < n; i++) { std::snprintf(b, sizeof b, "%02x", unsigned(static_cast<unsigned char>(p[i]))); s.text += b; } s.text += '\n'; }
        if (s.tag != tag || s.at != k) return n;
        s.hit++;
        if (s.kind == 1) return n - 1;
        if (s.kind == 2 && err) { *err = true; return 0; }
        p[size_t(s.pos) % n] ^= T(s.bits); return n;
    }
#define VF_RUN (!std::is_constant_evaluated())
#ifndef VF_CONST    // which implementation is wrong in constant evaluation
#define VF_CONST -1
#endif
    template<int T, class A> constexpr size_t wrong(A* p, size_t n) { if (T == VF_CONST && n) p[n - 1] = A(p[n - 1] ^ 1); return n; }
    template<class B, int T> struct digesting : B
    {
        template<milo::meta::byte A> constexpr auto digest(A* p, size_t n) noexcept(true) -> size_t { auto r = B::digest(p, n); return VF_RUN ? spoil(T, p, r) : wrong<T>(p, r); }
        template<milo::meta::byte A> constexpr auto digest(A* p) noexcept(true) -> size_t { auto r = B::digest(p); return VF_RUN ? spoil(T, p, r) : wrong<T>(p, r); }
    };
    template<class B, int T> struct deriving : B
    {
        template<milo::meta::byte A> constexpr auto derive(A* p, size_t n) noexcept(true) -> size_t { auto r = B::derive(p, n); return VF_RUN ? spoil(T, p, r) : wrong<T>(p, r); }
    };
    template<class B, int T> struct ciphering : B
    {
        template<milo::meta::byte A, milo::meta::byte C> constexpr auto encrypt(const A* p, size_t n, C* o) noexcept(true) -> size_t { auto r = B::encrypt(p, n, o); return VF_RUN ? spoil(T, o, r) : wrong<T>(o, r); }
        template<milo::meta::byte A, milo::meta::byte C> constexpr auto decrypt(const A* p, size_t n, C* o) noexcept(true) -> size_t { auto r = B::decrypt(p, n, o); return VF_RUN ? spoil(T, o, r) : wrong<T>(o, r); }
    };
    template<class B, int T> struct sealing : digesting<ciphering<B, T>, T> { };
    template<class B, int T> struct coding : B
    {
        template<milo::meta::byte A, milo::meta::byte C> static constexpr auto encode(const A* p, size_t n, C* o) noexcept(true) -> size_t { auto r = B::encode(p, n, o); return VF_RUN ? spoil(T, o, r) : wrong<T>(o, r); }
        template<milo::meta::byte A, milo::meta::byte C> static constexpr auto decode(const A* p, size_t n, C* o, milo::error& e) noexcept(true) -> size_t
        {
            auto r = B::decode(p, n, o, e); if (!VF_RUN) return wrong<T>(o, r);
            bool x = false; r = spoil(T, o, r, &x); if (x) e = milo::error(milo::error::size); return r;
        }
    };
}
