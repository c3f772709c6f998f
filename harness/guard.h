// Memory seen through two mappings: a writable one for the test and a read-only one for the library, both between unmapped pages.
#pragma once
#include "vh.h"
#include <sys/mman.h>
namespace vh
{
    struct arena
    {
        static constexpr size_t PG = 4096; size_t cap; u8* rw; u8* ro;
        explicit arena(size_t c) : cap((c + PG - 1) / PG * PG)
        {
            int fd = memfd_create("arena", 0); if (fd < 0 || ftruncate(fd, off_t(cap))) { perror("memfd"); _exit(3); }
            auto map = [&](int prot) { u8* b = static_cast<u8*>(mmap(nullptr, cap + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (b == MAP_FAILED) _exit(3); if (mmap(b + PG, cap, prot, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(3); return b + PG; };
            rw = map(PROT_READ | PROT_WRITE); ro = map(PROT_READ); close(fd);
        }
        arena(const arena&) = delete;
        // Places n bytes: ends at the unmapped page, begins at it, or lies inside at a chosen offset.
        size_t at = 0, n = 0; u8 mark = 0;
        void place(rng& r, size_t size, unsigned pos) { n = size; if (size > cap) _exit(3); at = pos == 0 ? cap - size : pos == 1 ? 0 : std::min(cap - size, 64 + r.below(64)); }
        // an input: the library gets the read-only view
        const u8* in(rng& r, const bytes& b, unsigned pos) { place(r, b.size(), pos); if (!b.empty()) memcpy(rw + at, b.data(), b.size()); return ro + at; }
        // an output: surroundings are marked
        u8* out(rng& r, size_t size, unsigned pos)
        {
            place(r, size, pos); mark = u8(r.next() | 1); size_t a = at > 128 ? at - 128 : 0, b = std::min(cap, at + n + 128); memset(rw + a, mark, b - a); return rw + at;
        }
        // nothing but the first `written` bytes of the output may have changed
        void check(size_t written, const char* what)
        {
            size_t a = at > 128 ? at - 128 : 0, b = std::min(cap, at + n + 128);
            if (written > n) { fail(strf("%s: reported %zu bytes in a buffer of %zu", what, written, n)); return; }
            for (size_t i = a; i < b; i++) if ((i < at || i >= at + written) && rw[i] != mark) { fail(strf("%s: byte %lld relative to the output (size %zu, reported %zu) was written", what, (long long)i - (long long)at, n, written)); return; }
        }
    };
}
