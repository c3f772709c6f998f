// A range of more than 2^32 bytes that costs one megabyte: the same pages mapped again and again.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include "vh.h"
namespace vh
{
    struct ring
    {
        static constexpr size_t unit = size_t(1) << 20;
        u8* p; size_t span;
        explicit ring(size_t n, bool writable = true) : span((n + unit - 1) / unit * unit)
        {
            int fd = memfd_create("ring", 0); if (fd < 0 || ftruncate(fd, off_t(unit))) { fprintf(stderr, "memfd\n"); exit(2); }
            p = static_cast<u8*>(mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (p == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(2); }
            for (size_t o = 0; o < span; o += unit) if (mmap(p + o, unit, o && !writable ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "mmap fixed\n"); exit(2); }
            close(fd);
        }
        ring(const ring&) = delete;
        ~ring() { munmap(p, span); }
        void fill(rng& r) { r.fill(p, unit); }
    };
    // one call on such a range gives no heartbeat
    inline void no_hang_timer() { itimerval it{}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
}
