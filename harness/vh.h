// Driver framework: seeded cases, event counters, violation records, crash and hang reporting.
#pragma once
#include "ref.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <span>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vh
{
    using u8 = unsigned char;
    using u64 = uint64_t;
    using bytes = std::vector<u8>;

    inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

    struct rng
    {
        u64 s;
        explicit rng(u64 a = 1) : s(mix(a)) {}
        u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
        u64 below(u64 n) { return n ? next() % n : 0; }
        u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
        bool chance(u64 n) { return below(n) == 0; }
        void fill(void* p, size_t n) { auto q = static_cast<u8*>(p); while (n >= 8) { u64 v = next(); memcpy(q, &v, 8); q += 8; n -= 8; } if (n) { u64 v = next(); memcpy(q, &v, n); } }
        // Random data with structure: uniform, constant, sparse, high or low bytes.
        void data(void* p, size_t n)
        {
            auto q = static_cast<u8*>(p);
            switch (below(8))
            {
                case 0: if (n) memset(q, 0x00, n); break;
                case 1: if (n) memset(q, 0xff, n); break;
                case 2: { if (n) memset(q, 0, n); for (size_t i = 0; i < n / 16 + 1 && n; i++) q[below(n)] = u8(next()); break; }
                case 3: { static const u8 t[] = {0x00, 0xff, 0x80, 0x7f, 0x01, 0xfe}; for (size_t i = 0; i < n; i++) q[i] = t[below(6)]; break; }
                default: fill(p, n);
            }
        }
        bytes vec(size_t n) { bytes b(n); data(b.data(), n); return b; }
        // A length, biased to the neighbourhood of multiples of the sizes that matter.
        size_t len(size_t max)
        {
            static const size_t g[] = {16, 64, 128, 256, 512, 1024};
            size_t r;
            switch (below(6))
            {
                case 0: r = below(20); break;
                case 1: case 2: { size_t b = g[below(6)]; r = b * below(max / b + 1) + below(5); r = r >= 2 ? r - 2 : r; break; }
                case 3: r = below(max / 8 + 1); break;
                default: r = below(max + 1);
            }
            return std::min(r, max);
        }
    };

    inline std::string hex(const void* p, size_t n, size_t cap = 96)
    {
        static const char* d = "0123456789abcdef"; std::string o; auto q = static_cast<const u8*>(p);
        for (size_t i = 0; i < n && i < cap; i++) { o += d[q[i] >> 4]; o += d[q[i] & 15]; }
        if (n > cap) o += "..(" + std::to_string(n) + " bytes)";
        return o;
    }
    inline std::string hex(const bytes& b, size_t cap = 96) { return hex(b.data(), b.size(), cap); }

    struct state_t
    {
        u64 seed = 1; bool thorough = false; const char* group = nullptr; const char* prefix = nullptr; int64_t only = -1; u64 scale = 1; u64 div = 1;
        std::vector<std::pair<std::string, u64>> counters; std::vector<std::string> samples; std::vector<std::string> fails;
        std::vector<u64> sigs; u64 evals = 0; u64 sig_overflow = 0; volatile u64 beat = 0; volatile u64 beat_seen = 0; int stuck = 0;
        char* cur = nullptr; std::mutex m; u64 nfail = 0; bool json_done = false;
    };
    inline state_t S;

    inline std::string jstr(const std::string& s)
    {
        std::string o = "\""; char b[8];
        for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 0x20 || c > 0x7e) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); }
        return o + "\"";
    }
    inline void write_json()
    {
        const char* path = getenv("VH_OUT"); if (!path) path = "/dev/stdout";
        FILE* f = fopen(path, "w"); if (!f) return;
        std::sort(S.sigs.begin(), S.sigs.end()); u64 distinct = u64(std::unique(S.sigs.begin(), S.sigs.end()) - S.sigs.begin());
        fprintf(f, "{\"evaluations\":%" PRIu64 ",\"distinct\":%" PRIu64 ",\"sig_overflow\":%" PRIu64 ",\"nfail\":%" PRIu64, S.evals, distinct, S.sig_overflow, S.nfail);
        fprintf(f, ",\"counters\":{"); bool c = false; for (auto& [k, v] : S.counters) { fprintf(f, "%s%s:%" PRIu64, c ? "," : "", jstr(k).c_str(), v); c = true; }
        fprintf(f, "},\"samples\":["); c = false; for (auto& s : S.samples) { fprintf(f, "%s%s", c ? "," : "", jstr(s).c_str()); c = true; }
        fprintf(f, "],\"violations\":["); c = false; for (auto& s : S.fails) { fprintf(f, "%s%s", c ? "," : "", jstr(s).c_str()); c = true; }
        fprintf(f, "]}\n"); fclose(f); S.json_done = true;
    }
    inline std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    inline std::string strf(const char* fmt, ...)
    {
        va_list a, b; va_start(a, fmt); va_copy(b, a); int n = vsnprintf(nullptr, 0, fmt, a); va_end(a);
        std::string s(size_t(n) + 1, 0); vsnprintf(s.data(), s.size(), fmt, b); va_end(b); s.resize(size_t(n)); return s;
    }
    // The case being run, kept in a shared mapping so that the runner can read it after a crash.
    inline void current(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    inline void current(const char* fmt, ...)
    {
        S.beat = S.beat + 1; if (!S.cur) return;
        va_list a; va_start(a, fmt); vsnprintf(S.cur + 128, 3900, fmt, a); va_end(a);
    }
    inline void beat() { S.beat = S.beat + 1; }
    inline void fail(const std::string& msg)
    {
        #ifdef VH_RAW
        if (raw_lost()) _exit(76);
        #endif
        std::lock_guard<std::mutex> l(S.m);
        S.nfail += 1;
        std::string w = S.cur ? std::string(S.cur) + " " + (S.cur + 128) : std::string();
        if (S.fails.size() < 10) { S.fails.push_back(msg + " [case: " + w + "]"); fprintf(stderr, "FAIL: %s [case: %s]\n", msg.c_str(), w.c_str()); }
        if (S.nfail >= 50) { write_json(); _exit(1); }
    }
    inline thread_local bool quiet = false;   // set in threads: their events are counted by the main one
    // A plain vector: std::map calls into libstdc++.so, which MemorySanitizer cannot follow.
    inline void count(const std::string& k, u64 n = 1) { if (quiet) return; for (auto& [q, v] : S.counters) if (q == k) { v += n; return; } S.counters.emplace_back(k, n); }
    inline void eval(u64 sig, bool nontrivial = true)
    {
        S.evals += 1;
        if (nontrivial) { if (S.sigs.size() < (1u << 21)) S.sigs.push_back(sig); else S.sig_overflow += 1; }
    }
    inline void sample(const std::string& s) { if (S.samples.size() < 12) S.samples.push_back(s); }
    inline u64 sig_of(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull) { auto q = static_cast<const u8*>(p); for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ull; return mix(h); }
    inline u64 sigs(std::initializer_list<u64> l) { u64 h = 7; for (u64 x : l) h = mix(h ^ x); return h; }

    inline bool check_eq(const void* a, size_t an, const void* b, size_t bn, const char* what)
    {
        if (an == bn && (an == 0 || memcmp(a, b, an) == 0)) return true;
        fail(strf("%s: got %s want %s", what, hex(a, an).c_str(), hex(b, bn).c_str()));
        return false;
    }
    inline bool check_eq(const bytes& a, const bytes& b, const char* what) { return check_eq(a.data(), a.size(), b.data(), b.size(), what); }

    // Runs cases [0, n) of a group; each case has a generator of its own, so that it can be replayed alone.
    template<typename F>
    void cases(const char* group, u64 n, F&& f)
    {
        if (S.group && strcmp(S.group, group) != 0) return;
        if (S.prefix && strncmp(S.prefix, group, strlen(S.prefix)) != 0) return;
        n *= S.scale; if (n) n = std::max<u64>(1, n / S.div);
        for (u64 i = 0; i < n; i++)
        {
            if (S.only >= 0 && u64(S.only) != i) continue;
            if (S.cur) snprintf(S.cur, 128, "group=%s case=%" PRIu64, group, i);
            S.beat = S.beat + 1;
            rng r(sigs({S.seed, sig_of(group, strlen(group)), i}));
            f(r, i);
        }
        count(std::string("cases:") + group, n);
    }
    inline void on_tick(int)
    {
        if (S.beat == S.beat_seen) { if (++S.stuck >= 12) { const char m[] = "VH-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(78); } }
        else { S.stuck = 0; S.beat_seen = S.beat; }
    }
    // env: VERIF_SEED, VERIF_TIER, VH_OUT, VH_CUR, VH_GROUP, VH_CASE
    inline void init()
    {
        if (auto e = getenv("VERIF_SEED")) S.seed = strtoull(e, nullptr, 10);
        if (auto e = getenv("VERIF_TIER")) S.thorough = !strcmp(e, "thorough");
        S.group = getenv("VH_GROUP"); S.prefix = getenv("VH_PREFIX");
        if (auto e = getenv("VH_DIV")) S.div = std::max<u64>(1, strtoull(e, nullptr, 10));
        if (auto e = getenv("VH_CASE")) S.only = int64_t(strtoull(e, nullptr, 10));
        if (auto e = getenv("VH_CUR"))
        {
            int fd = open(e, O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) { void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) S.cur = static_cast<char*>(p); }
            if (fd >= 0) close(fd);
        }
        if (!getenv("VH_NOTICK"))
        {
            struct sigaction sa{}; sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
            itimerval it{{5, 0}, {5, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
        }
    }
    inline int finish()
    {
        #ifdef VH_RAW
        if (raw_lost()) return 76;
        #endif
        write_json(); return S.nfail ? 1 : 0;
    }
    inline u64 tier(u64 quick, u64 thorough) { return S.thorough ? thorough : quick; }

    // A buffer with canaries on both sides, at a chosen misalignment.
    struct canary
    {
        bytes mem; size_t off, n; u8 mark;
        canary(rng& r, size_t size, size_t align_off) : mem(size + 192, 0), off(64 + align_off % 64), n(size), mark(u8(r.next() | 1)) { for (auto& b : mem) b = mark; }
        u8* p() { return mem.data() + off; }
        bool ok(size_t written) const { for (size_t i = 0; i < mem.size(); i++) if ((i < off || i >= off + written) && mem[i] != mark) return false; return true; }
    };

    // Random partition of [0, n), biased to block edges and including empty parts.
    inline std::vector<size_t> split(rng& r, size_t n)
    {
        std::vector<size_t> v; size_t pos = 0; unsigned mode = unsigned(r.below(6));
        static const size_t g[] = {16, 64, 128, 256, 512};
        size_t unit = g[r.below(5)]; unsigned guard = 0;
        while (pos < n && guard++ < 4096)
        {
            size_t left = n - pos, c;
            switch (mode)
            {
                case 0: c = 1 + r.below(3); break;
                case 1: c = r.below(left + 1); break;
                case 2: c = unit - 1 + r.below(3); break;
                case 3: { size_t rest = unit - pos % unit; c = rest + r.below(3) - 1; break; }
                case 4: c = r.below(unit * 2 + 1); break;
                default: c = r.chance(4) ? 0 : r.below(left + 1);
            }
            c = std::min(c, left); v.push_back(c); pos += c;
        }
        if (pos < n) v.push_back(n - pos);
        if (r.chance(3)) v.insert(v.begin() + long(r.below(v.size() + 1)), 0);
        return v;
    }
}
