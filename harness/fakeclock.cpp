// Replaces the clock of a program: with FAKE_STEP=<ns> every reading is that much later than the one before.
#include <atomic>
#include <cstdlib>
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" __attribute__((weak)) void vh_on_clock();
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
    static const char* e = getenv("FAKE_STEP"); static std::atomic<unsigned long long> now{1000000000ull};
    if (!e || id != CLOCK_MONOTONIC) return int(syscall(SYS_clock_gettime, id, t));
    if (vh_on_clock) vh_on_clock();
    unsigned long long v = now.fetch_add(strtoull(e, nullptr, 10)); t->tv_sec = time_t(v / 1000000000ull); t->tv_nsec = long(v % 1000000000ull); return 0;
}
